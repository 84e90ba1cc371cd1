package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/mon"
	"verif/harness/oas"
)

// sched records how goroutines interleave in interceptors and delays them.
type sched struct {
	mu    sync.Mutex
	trace []byte
	n     int64
	delay int64
}

func (s *sched) step(id int) {
	n := atomic.AddInt64(&s.n, 1)

	// The lock orders goroutines, which hides races: most steps do without it.
	if n%16 == 0 && s.mu.TryLock() {
		s.trace = append(s.trace, byte(id))
		s.mu.Unlock()
	}

	switch (n*2654435761 + s.delay) % 11 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		if s.delay%3 == 0 {
			time.Sleep(time.Microsecond * time.Duration(n%40))
		}
	}
}

func (s *sched) hash() string {
	h := fnv.New64a()
	_, _ = h.Write(s.trace)

	return fmt.Sprint(h.Sum64())
}

// together runs functions at once.
func together(fs ...func()) {
	var wg sync.WaitGroup

	start := make(chan struct{})

	for _, f := range fs {
		f := f

		wg.Add(1)

		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}

	close(start)
	wg.Wait()
}

// observe builds a scenario and tells everything that can be seen of it.
func (s *scenario) observe(id int, sc *sched) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprint("panic: ", p)
		}
	}()

	t := newTarget(s.ver, s.setup)

	// The option of one reflector is called for its own properties only, and for all of them.
	calls := 0

	jr := t.refl.JSONSchemaReflector()
	jr.DefaultOptions = append(jr.DefaultOptions, jsonschema.InterceptProp(func(jsonschema.InterceptPropParams) error {
		calls++

		if sc != nil {
			sc.step(id)
		}

		return nil
	}))

	s.doc(t.refl.SpecSchema())

	h := sha256.New()

	for i, o := range s.ops {
		oc, err := t.context(o)
		if err == nil {
			s.decor[i](oc)

			if o.webhook {
				err = t.r31.AddWebhook(oc)
			} else {
				err = t.refl.AddOperation(oc)
			}
		}

		fmt.Fprintln(h, err)
	}

	for _, o := range s.ops {
		var seen []string

		cb := func(in openapi.In, name string, js *jsonschema.SchemaOrBool, required bool) error {
			b, err := json.Marshal(js)
			seen = append(seen, fmt.Sprint(in, name, required, string(b), err))

			return nil
		}

		for _, u := range o.reqs {
			err := t.refl.WalkRequestJSONSchemas(o.method, u.content(), cb, nil)
			seen = append(seen, fmt.Sprint(err))
		}

		for _, u := range o.resps {
			err := t.refl.WalkResponseJSONSchemas(u.content(), cb, nil)
			seen = append(seen, fmt.Sprint(err))
		}

		// The order of callbacks follows random order of maps.
		sort.Strings(seen)
		fmt.Fprintln(h, seen)
	}

	js, ya, err := encodeBoth(t.doc())
	fmt.Fprintln(h, string(js), string(ya), err, calls)

	return hex.EncodeToString(h.Sum(nil))
}

// readAll reads a finished document in all ways.
func readAll(t *target, ops []opDef, order []int, id int, sc *sched) (res []string) {
	defer func() {
		if p := recover(); p != nil {
			res = []string{fmt.Sprint("panic: ", p)}
		}
	}()

	res = make([]string, 6)

	for _, k := range order {
		sc.step(id)

		switch k {
		case 0:
			b, err := t.doc().MarshalJSON()
			res[k] = fmt.Sprint(string(b), err)
		case 1:
			b, err := t.doc().MarshalYAML()
			res[k] = fmt.Sprint(string(b), err)
		case 2:
			ss := t.doc().(openapi.SpecSchema)
			res[k] = ss.Title() + "/" + ss.Description() + "/" + ss.Version()
		case 3, 4:
			res[k] = t.exportedText(k == 4)
		case 5:
			// Parts of the document.
			var l []string

			if t.r3 != nil {
				for p, pi := range t.r3.SpecEns().Paths.MapOfPathItemValues {
					for m, o := range pi.MapOfOperationValues {
						b, err := json.Marshal(o)
						l = append(l, fmt.Sprint(p, m, string(b), err))
					}
				}
			} else if t.r31.SpecEns().Paths != nil {
				for p, pi := range t.r31.SpecEns().Paths.MapOfPathItemValues {
					b, err := json.Marshal(pi)
					l = append(l, fmt.Sprint(p, string(b), err))
				}
			}

			sort.Strings(l)
			res[k] = fmt.Sprint(l)
		}
	}

	return res
}

// exportedText exports all schemas of components.
func (t *target) exportedText(viaRef bool) string {
	var l []string

	if t.r3 != nil {
		if t.r3.SpecEns().Components == nil || t.r3.Spec.Components.Schemas == nil {
			return ""
		}

		for name, s := range t.r3.SpecEns().Components.Schemas.MapOfSchemaOrRefValues {
			s := s
			js := s.ToJSONSchema(t.r3.Spec)

			if viaRef {
				js, _ = t.r3.ResolveJSONSchemaRef(compPrefix + name)
			}

			b, err := json.Marshal(js)
			l = append(l, fmt.Sprint(name, string(b), err))
		}
	} else {
		if t.r31.SpecEns().Components == nil {
			return ""
		}

		for name, s := range t.r31.SpecEns().Components.Schemas {
			js := openapi31.ToJSONSchema(s, t.r31.Spec)

			if viaRef {
				js, _ = t.r31.ResolveJSONSchemaRef(compPrefix + name)
			}

			b, err := json.Marshal(js)
			l = append(l, fmt.Sprint(name, string(b), err))
		}
	}

	sort.Strings(l)

	return fmt.Sprint(l)
}

// decodeAll decodes bytes in both forms and encodes what it got.
func decodeAll(ver string, js, ya []byte) (res string) {
	defer func() {
		if p := recover(); p != nil {
			res = fmt.Sprint("panic: ", p)
		}
	}()

	a, b := newSpec(ver), newSpec(ver)
	err1 := a.UnmarshalJSON(js)
	err2 := b.UnmarshalYAML(ya)

	if err1 != nil || err2 != nil {
		return fmt.Sprint(err1, err2)
	}

	o1, err1 := a.MarshalJSON()
	o2, err2 := b.MarshalJSON()

	return fmt.Sprint(string(o1), err1, string(o2), err2, reflect.DeepEqual(a, b))
}

const soloEnv = "VERIF_SOLO"

// firstUse runs scenarios in processes that did nothing before, alone and at once.
func firstUse(c *mon.Ctx) {
	n := 6
	if c.Tier == "thorough" {
		n = 120
	}

	var wg sync.WaitGroup

	out := make([][2][]string, n)
	sem := make(chan struct{}, 6)

	for i := 0; i < n; i++ {
		i := i

		wg.Add(1)

		go func() {
			defer wg.Done()
			sem <- struct{}{}

			defer func() { <-sem }()

			for mode := 0; mode < 2; mode++ {
				var lines []string

				// Alone: every scenario has its own process.
				for k := 0; k < 4; k++ {
					arg := fmt.Sprintf("%s=%d %d %d", soloEnv, c.Seed, i, k)
					if mode == 1 {
						if k > 0 {
							break
						}

						arg = fmt.Sprintf("%s=%d %d -1", soloEnv, c.Seed, i)
					}

					cmd := exec.Command(os.Args[0])
					cmd.Env = append(os.Environ(), arg)

					var stderr bytes.Buffer

					cmd.Stderr = &stderr
					b, err := cmd.Output()
					_, _ = os.Stderr.Write(stderr.Bytes())

					if err != nil && !strings.Contains(stderr.String(), "DATA RACE") {
						if strings.Contains(stderr.String(), "swaggest/openapi-go") {
							c.Violate("a process of goroutines with separate reflectors crashed", trim(stderr.String(), 4000))
						} else {
							fmt.Fprintln(os.Stderr, "process:", err)
						}
					}

					lines = append(lines, strings.Fields(string(b))...)
				}

				out[i][mode] = lines
			}
		}()
	}

	wg.Wait()

	for i, o := range out {
		c.Count("processes_of_first_use", len(o[0])+1)

		if len(o[0]) == 4 && len(o[1]) == 4 && !reflect.DeepEqual(o[0], o[1]) {
			c.Violate("goroutines with separate reflectors in a new process build other documents than processes that build one each", map[string]interface{}{"group": i, "alone": o[0], "together": o[1]})
		}
	}
}

func soloScenarios(seed int64, group int) (res []*scenario) {
	for k := 0; k < 4; k++ {
		r := rand.New(rand.NewSource(seed*7919 + int64(group)*31 + int64(k/2)))
		res = append(res, newScenario(r, []string{"3.0", "3.1"}[k%2]))
	}

	return res
}

func concurrencyCase(c *mon.Ctx) {
	r := c.R
	sc := &sched{delay: int64(r.Intn(1000))}

	switch c.Idx % 4 {
	case 0, 1:
		concurrentReflectors(c, sc)
	case 2:
		concurrentReaders(c, sc)
	case 3:
		concurrentDecoders(c, sc)
	}

	c.Count("interceptor_steps", int(sc.n))
}

func concurrentReflectors(c *mon.Ctx, sc *sched) {
	r := c.R

	var ss []*scenario

	n := 2 + r.Intn(3)
	for i := 0; i < n; i++ {
		s := newScenario(r, []string{"3.0", "3.1"}[r.Intn(2)])
		ss = append(ss, s)

		// The same structures, mappings and options are given to several reflectors.
		if r.Intn(2) == 0 {
			s2 := *s
			if s.ver == "3.0" || !hasWebhook(s) {
				s2.ver = []string{"3.0", "3.1"}[r.Intn(2)]
			}

			ss = append(ss, &s2)
		}
	}

	got := make([]string, len(ss))

	var fs []func()

	for i := range ss {
		i := i

		fs = append(fs, func() { got[i] = ss[i].observe(i, sc) })
	}

	together(fs...)

	for i, s := range ss {
		if alone := s.observe(i, nil); alone != got[i] {
			c.Violate(s.ver+": a reflector yields another document when others work at the same time", map[string]interface{}{"scenario": s.describe(), "alone": trim(alone, 500), "together": trim(got[i], 500)})
		}
	}

	// A document that is changed in place by its owner belongs to it alone.
	for _, s := range ss[:2] {
		alone := s.observe(0, nil)
		t, _ := s.build(s.order(), nil)

		c.Count("changed_in_place", vandalise(reflect.ValueOf(t.doc()), s.ver == "3.1", map[uintptr]bool{}))

		if after := s.observe(0, nil); alone != after {
			c.Violate(s.ver+": a reflector yields another document after a document of another one was changed in place", map[string]interface{}{"scenario": s.describe(), "before": trim(alone, 500), "after": trim(after, 500)})
		}
	}

	c.Count("reflectors_at_once", len(ss))
	c.Eval("reflectors "+sc.hash(), sc.n > 0)

	if c.WantSample() {
		c.Sample(map[string]interface{}{"reflectors": len(ss), "interceptor_steps": sc.n, "interleaving": trim(fmt.Sprint(sc.trace), 300)})
	}
}

func hasWebhook(s *scenario) bool {
	for _, o := range s.ops {
		if o.webhook {
			return true
		}
	}

	return false
}

func concurrentReaders(c *mon.Ctx, sc *sched) {
	r := c.R
	ver := []string{"3.0", "3.1"}[r.Intn(2)]

	var (
		t   *target
		ops []opDef
	)

	if r.Intn(3) == 0 {
		t = newTarget(ver, setups[0])
		js := oas.Encode(genDoc(r, ver, c.Idx, map[string]int{}, true), nil)

		if t.r3 != nil {
			*t.r3.Spec = openapi3.Spec{}
		} else {
			*t.r31.Spec = openapi31.Spec{}
		}

		if t.doc().UnmarshalJSON(js) != nil {
			return
		}

		c.Count("decoded_documents_read", 1)
	} else {
		s := newScenario(r, ver)
		t, _ = s.build(s.order(), nil)
		ops = s.ops

		c.Count("built_documents_read", 1)
	}

	n := 3 + r.Intn(3)
	got := make([][]string, n)

	var fs []func()

	for i := 0; i < n; i++ {
		i := i
		order := r.Perm(6)

		fs = append(fs, func() { got[i] = readAll(t, ops, order, i, sc) })
	}

	together(fs...)

	alone := readAll(t, ops, []int{0, 1, 2, 3, 4, 5}, 0, sc)

	for i := range got {
		for k := range alone {
			if k >= len(got[i]) || got[i][k] != alone[k] {
				c.Violate(fmt.Sprintf("%s: a reader of a finished document gets another result when others read (%s)", ver, []string{"JSON", "YAML", "info", "export", "export by reference", "parts"}[k]), map[string]interface{}{"alone": trim(alone[k], 3000), "together": trim(fmt.Sprint(got[i]), 3000)})

				break
			}
		}
	}

	c.Count("readers_at_once", n)
	c.Eval("readers "+sc.hash()+fmt.Sprint(len(alone[0])), true)
}

func concurrentDecoders(c *mon.Ctx, sc *sched) {
	r := c.R

	type in struct {
		ver    string
		js, ya []byte
	}

	var ins []in

	for i := 1 + r.Intn(3); i > 0; i-- {
		ver := []string{"3.0", "3.1"}[r.Intn(2)]
		js := oas.Encode(genDoc(r, ver, c.Idx+i, map[string]int{}, true), nil)
		sp := newSpec(ver)

		if sp.UnmarshalJSON(js) != nil {
			continue
		}

		ya, err := sp.MarshalYAML()
		if err != nil {
			continue
		}

		if r.Intn(5) == 0 {
			js = js[:r.Intn(len(js))] // Broken.
		}

		// The same bytes are decoded by several goroutines.
		ins = append(ins, in{ver, js, ya}, in{ver, js, ya}, in{ver, js, ya})
	}

	got := make([]string, len(ins))

	var fs []func()

	for i := range ins {
		i := i

		fs = append(fs, func() {
			sc.step(i)
			got[i] = decodeAll(ins[i].ver, ins[i].js, ins[i].ya)
		})
	}

	together(fs...)

	for i, in := range ins {
		if alone := decodeAll(in.ver, in.js, in.ya); alone != got[i] {
			c.Violate(in.ver+": decoding gives another document when others decode", map[string]interface{}{"json": trim(string(in.js), 3000), "alone": trim(alone, 2000), "together": trim(got[i], 2000)})
		}
	}

	for _, in := range ins {
		sp := newSpec(in.ver)
		if sp.UnmarshalJSON(in.js) != nil {
			continue
		}

		alone := decodeAll(in.ver, in.js, in.ya)

		c.Count("changed_in_place", vandalise(reflect.ValueOf(sp), true, map[uintptr]bool{}))

		if after := decodeAll(in.ver, in.js, in.ya); alone != after {
			c.Violate(in.ver+": decoding gives another document after a decoded document was changed in place", map[string]interface{}{"json": trim(string(in.js), 3000), "alone": trim(alone, 2000), "after": trim(after, 2000)})
		}
	}

	c.Count("decoders_at_once", len(ins))
	c.Eval(fmt.Sprintf("decoders %d %d", len(ins), sc.delay), len(ins) > 0)
}

func init() {
	if v := os.Getenv(soloEnv); v != "" {
		var (
			seed     int64
			group, k int
		)

		if _, err := fmt.Sscan(v, &seed, &group, &k); err != nil {
			panic(err)
		}

		ss := soloScenarios(seed, group)
		res := make([]string, len(ss))

		if k >= 0 {
			fmt.Println(ss[k].observe(0, nil))
		} else {
			var fs []func()

			for i := range ss {
				i := i

				fs = append(fs, func() { res[i] = ss[i].observe(i, nil) })
			}

			together(fs...)

			for _, l := range res {
				fmt.Println(l)
			}
		}

		os.Exit(0)
	}

	register(&mon.Check{
		ID:    "C19",
		Rule:  "everything is built with the race detector: several goroutines with separate reflectors (both versions, the same structures, mappings and options given to more than one) build documents, walk and encode, with delays in interceptors; several goroutines read one finished (built or decoded) document in all ways in random order; several decode the same and different bytes; every result is compared with that of running alone afterwards, and with that after a document was changed in place everywhere; and in processes that did nothing before with that of processes which build one document each; distinct counts interleavings seen by interceptors",
		Level: "exploration",
		Quick: 100, Thorough: 6000,
		Fixed:  firstUse,
		Case:   concurrencyCase,
		Serial: true,
		Races:  true,
		Need:   map[string]int{"reflectors_at_once": 100, "readers_at_once": 50, "decoders_at_once": 50, "built_documents_read": 3, "decoded_documents_read": 1, "interceptor_steps": 1000, "changed_in_place": 3000, "processes_of_first_use": 20},
	})
}
