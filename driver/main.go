// The conformance driver: performs the operations of a scenario file on the real library and writes one event for each
// of them, to be judged by the specification (spec/JTrace.tla).
//
//	jdriver run SCENARIO OUT          the groups of the scenario one after the other
//	jdriver conc SCENARIO OUT         all the groups at once, each in a goroutine of its own
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	_ "github.com/andygello555/json-dom/code/go"
	"github.com/andygello555/json-dom/code/js"
	"github.com/andygello555/json-dom/globals"
	"github.com/andygello555/json-dom/jom"
	"github.com/andygello555/json-dom/jom/json_map"
	"github.com/hjson/hjson-go"
)

func ptr(f callback) string { return fmt.Sprint(*(*uintptr)(unsafe.Pointer(&f))) }

type obj = map[string]interface{}

// A group of operations: from one reset to the next.
type group struct {
	name   string
	lines  []obj
	events []interface{}
	sink   func(e obj)
	docs   map[string]*jom.JsonMap
	ids    map[string]string   // pointer of a callback -> identity
	funcs  map[string]callback // identity -> callback
	st     map[string]interface{}
	ints   bool
	shown  string // the documents as they were last written
	mu     sync.Mutex
	lastIn interface{} // the value last given to the library
	logs   bytes.Buffer
	base   int
}

func (g *group) emit(e obj) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.sink(e)
}

func (g *group) dump() obj {
	out := obj{}
	for h, d := range g.docs {
		out[h] = obj{"root": enc(*d.GetInsides(), g.ids), "arr": d.IsArray()}
	}
	return out
}

var codeRe = regexp.MustCompile(`\((-\d+)\)`)

func codeOf(v interface{}) int {
	if m := codeRe.FindStringSubmatch(fmt.Sprint(v)); m != nil {
		n, _ := strconv.Atoi(m[1])
		return n
	}
	return 0
}

// --- callbacks

func (g *group) callback(id string) callback {
	if f, ok := g.funcs[id]; ok {
		return f
	}
	var f callback
	f = func(jm json_map.JsonMapInt) { g.runOps(id, jm) }
	g.funcs[id] = f
	g.ids[ptr(f)] = id
	return f
}

var stop = make(chan struct{})

func copied(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, e := range x {
			out[k] = copied(e)
		}
		return out
	case []interface{}:
		out := make([]interface{}, len(x))
		for i, e := range x {
			out[i] = copied(e)
		}
		return out
	}
	return v
}

func kindOf(v interface{}) string {
	switch v.(type) {
	case nil:
		return "null"
	case string:
		return "string"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case map[string]interface{}:
		return "object"
	case []interface{}:
		return "array"
	}
	return fmt.Sprintf("%T", v)
}

func ints(v interface{}) []int {
	out := make([]int, 0)
	for _, i := range v.([]interface{}) {
		out = append(out, toInt(i))
	}
	return out
}

func (g *group) runOps(id string, jm json_map.JsonMapInt) {
	def := g.st["f:"+id].(obj)
	g.emit(obj{"op": "exec", "id": def["id"], "scope": jm.GetCurrentScopePath(), "hdr": jm.GetCurrentScopePath(), "seen": enc(*jm.GetInsides(), g.ids)})
	for _, o := range def["ops"].([]interface{}) {
		op := o.([]interface{})
		in := *jm.GetInsides()
		str := func(i int) string { return op[i].(string) }
		switch str(0) {
		case "set":
			in[str(1)] = g.dec(op[2])
		case "del":
			delete(in, str(1))
		case "pset":
			jm.MustSet(str(1), g.dec(op[2]))
		case "pdel":
			jm.MustDelete(str(1))
		case "pget":
			nodes, err := jm.JsonPathSelector(str(1))
			if err != nil {
				panic(err)
			}
			vs := make([]interface{}, 0)
			for _, n := range nodes {
				vs = append(vs, copied(n.Value))
			}
			in[str(2)] = vs
		case "trail":
			*jm.GetInsides() = g.dec(op[1]).(map[string]interface{})
		case "push":
			in[str(1)] = append(append([]interface{}{}, in[str(1)].([]interface{})...), g.dec(op[2]))
		case "scope":
			in[str(1)] = jm.GetCurrentScopePath()
		case "count":
			in[str(1)] = float64(len(in))
		case "copy":
			if v, ok := in[str(1)]; ok {
				in[str(2)] = copied(v)
			}
		case "kind":
			if v, ok := in[str(1)]; ok {
				in[str(2)] = kindOf(v)
			}
		case "kinds":
			nodes, err := jm.JsonPathSelector(str(1))
			if err != nil {
				panic(err)
			}
			vs := make([]interface{}, 0)
			for _, n := range nodes {
				vs = append(vs, kindOf(n.Value))
			}
			in[str(2)] = vs
		case "leak":
			in[str(2)] = false
		case "gpush":
			jm.MustPush(str(1), g.dec(op[2]), ints(op[3])...)
		case "gpop":
			popped := jm.MustPop(str(1), ints(op[2])...)
			(*jm.GetInsides())[str(3)] = copied(popped)
		case "gfind":
			found := jm.FindScriptFields()
			(*jm.GetInsides())[str(1)] = found
		case "gstrip":
			jm.Strip()
		case "gmark":
			if err := jm.MarkupCode(str(1), str(2), str(3)); err != nil {
				panic(err)
			}
		case "gload":
			if err := jm.Unmarshal([]byte(str(2))); err != nil {
				panic(err)
			}
		case "log":
		case "throw":
			panic("thrown by " + id)
		case "sleep":
			time.Sleep(time.Duration(toInt(op[1])) * time.Millisecond)
		case "long":
			time.Sleep(time.Duration(toInt(op[1])) * time.Millisecond)
			return
		case "loop":
			<-stop
		}
	}
}

// --- the console of the scripts

type console struct {
	stream string
	mu     sync.Mutex
	route  func(id string) *group
}

var callRe = regexp.MustCompile(`^(Print|Error) call from: <(.*)>:\d+:\d+\n`)

// Each call of the console is one write.
func (c *console) Write(p []byte) (n int, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	text := string(p)
	hdr, word := "", ""
	if m := callRe.FindStringSubmatch(text); m != nil {
		word, hdr = m[1], m[2]
		text = text[len(m[0]):]
	}
	body := strings.TrimSuffix(text, "\n")
	if i := strings.Index(body, "@@EXEC"); i >= 0 {
		var e []interface{}
		dec := json.NewDecoder(strings.NewReader(body[i+6:]))
		if dec.Decode(&e) == nil && len(e) == 3 {
			g := c.route(fmt.Sprint(e[0]))
			g.emit(obj{"op": "exec", "id": fmt.Sprint(e[0]), "scope": e[1], "hdr": hdr, "seen": enc(e[2], g.ids)})
			return len(p), nil
		}
	}
	lines := make([]string, 0)
	for _, l := range strings.Split(body, "\n") {
		lines = append(lines, l)
	}
	c.route("").emit(obj{"op": "log", "stream": c.stream, "word": word, "hdr": hdr, "lines": lines})
	return len(p), nil
}

// --- operations

func resultOf(c string, code int) obj {
	return obj{"c": c, "code": code, "v": []interface{}{}, "p": []interface{}{}, "nil": false, "outlen": 0}
}

func (g *group) values(vs []interface{}) []interface{} {
	out := make([]interface{}, 0)
	for _, v := range vs {
		out = append(out, enc(v, g.ids))
	}
	return out
}

func (g *group) perform(e obj) (r obj) {
	str := func(k string) string { s, _ := e[k].(string); return s }
	flag := func(k string) bool { b, _ := e[k].(bool); return b }
	d := g.docs[str("h")]
	defer func() {
		if p := recover(); p != nil {
			r = resultOf("panic", codeOf(p))
			r["text"] = fmt.Sprint(p)
			if err, ok := p.(runtime.Error); ok {
				r["c"] = "bug"
				r["text"] = err.Error()
			}
		}
	}()
	outcome := func(err error) obj {
		if err != nil {
			r := resultOf("err", codeOf(err))
			r["text"] = err.Error()
			return r
		}
		return resultOf("ok", 0)
	}
	idx := func() []int { return ints(e["idx"]) }
	input := func() interface{} {
		g.lastIn = g.dec(e["val"])
		return g.lastIn
	}
	nodes := func(ns []*json_map.JsonPathNode, err error) obj {
		r := outcome(err)
		if err == nil {
			vs, ps := make([]interface{}, 0), make([]interface{}, 0)
			for _, n := range ns {
				vs = append(vs, enc(n.Value, g.ids))
				ps = append(ps, encPath(n.Absolute))
			}
			r["v"], r["p"] = vs, ps
		}
		return r
	}
	switch str("op") {
	case "get":
		if flag("must") {
			vs := d.MustGet(str("path"))
			r = resultOf("ok", 0)
			r["v"], r["nil"] = g.values(vs), vs == nil
			return r
		}
		return nodes(d.JsonPathSelector(str("path")))
	case "getabs":
		paths := decPaths(e["paths"])
		ns, errs := d.GetAbsolutePaths(&paths)
		if len(errs) > 0 {
			return nodes(nil, globals.JsonPathError.FillFromErrors(errs))
		}
		return nodes(ns, nil)
	case "resolve":
		// every node is looked up again through its own path
		ns, err := d.JsonPathSelector(str("path"))
		r = nodes(ns, err)
		if err == nil {
			again := make([]interface{}, 0)
			for _, n := range ns {
				paths := json_map.AbsolutePaths{n.Absolute}
				ms, errs := d.GetAbsolutePaths(&paths)
				vs := make([]interface{}, 0)
				if len(errs) > 0 {
					vs = append(vs, []interface{}{"x", errs[0].Error()})
				}
				for _, m := range ms {
					vs = append(vs, enc(m.Value, g.ids))
				}
				again = append(again, vs)
			}
			r["again"] = again
		}
		return r
	case "set":
		if flag("must") {
			d.MustSet(str("path"), input())
			return resultOf("ok", 0)
		}
		return outcome(d.JsonPathSetter(str("path"), input()))
	case "setabs":
		paths := decPaths(e["paths"])
		return outcome(d.SetAbsolutePaths(&paths, input()))
	case "del":
		if flag("must") {
			d.MustDelete(str("path"))
			return resultOf("ok", 0)
		}
		return outcome(d.JsonPathSetter(str("path"), nil))
	case "delabs":
		paths := decPaths(e["paths"])
		return outcome(d.SetAbsolutePaths(&paths, nil))
	case "push":
		d.MustPush(str("path"), input(), idx()...)
		return resultOf("ok", 0)
	case "pop":
		popped := d.MustPop(str("path"), idx()...)
		r = resultOf("ok", 0)
		r["v"] = g.values(popped)
		return r
	case "poke":
		poke(g.lastIn)
		return resultOf("ok", 0)
	case "load", "badload":
		return outcome(d.Unmarshal([]byte(str("text"))))
	case "strip":
		d.Strip()
		return resultOf("ok", 0)
	case "find":
		found := d.FindScriptFields()
		r = resultOf("ok", 0)
		r["v"] = found
		return r
	case "markup":
		return outcome(d.MarkupCode(str("path"), str("lang"), str("src")))
	case "clone":
		g.docs[str("h")] = g.docs[str("from")].Clone(flag("clear")).(*jom.JsonMap)
		return resultOf("ok", 0)
	case "marshal":
		out, err := d.Marshal()
		r = outcome(err)
		if err == nil {
			r["v"] = g.parsed(out, json.Unmarshal)
			r["outlen"] = len(out)
		}
		return r
	case "string":
		out := d.String()
		r = resultOf("ok", 0)
		r["v"] = g.parsed([]byte(out), func(b []byte, v interface{}) error { return hjson.Unmarshal(b, v) })
		return r
	case "parse":
		paths, err := json_map.ParseJsonPath(str("path"))
		r = outcome(err)
		if err == nil {
			ps := make([]interface{}, 0)
			for _, p := range paths {
				ps = append(ps, encPath(p))
			}
			r["p"] = ps
		}
		return r
	case "addall":
		paths := make(json_map.AbsolutePaths, 0)
		if _, ok := e["path"]; ok {
			var err error
			if paths, err = json_map.ParseJsonPath(str("path")); err != nil {
				return outcome(err)
			}
		}
		if base, ok := e["base"]; ok {
			keys := decKeys(base)
			for _, n := range ints(e["lens"]) {
				paths = append(paths, keys[:n])
			}
		}
		for _, add := range e["adds"].([]interface{}) {
			if errs := paths.AddToAll(nil, false, decKeys(add)...); errs != nil {
				return outcome(errs[0])
			}
		}
		r = resultOf("ok", 0)
		ps := make([]interface{}, 0)
		for _, p := range paths {
			ps = append(ps, encPath(p))
		}
		r["p"] = ps
		return r
	case "eval":
		out, err := jom.Eval([]byte(str("text")), false)
		r = outcome(err)
		r["outlen"] = len(out)
		if err == nil {
			r["v"] = g.parsed(out, json.Unmarshal)
		}
		return r
	case "run":
		d.Run()
		return resultOf("ok", 0)
	case "quiet":
		// everything that the operations started has to come to an end
		limit := time.Now().Add(time.Duration(toInt(e["wait"])) * time.Millisecond)
		never := 0
		if n, ok := e["never"]; ok {
			never = toInt(n)
		}
		for runtime.NumGoroutine() > g.base+never && time.Now().Before(limit) {
			time.Sleep(20 * time.Millisecond)
		}
		r = resultOf("ok", 0)
		left := runtime.NumGoroutine() - g.base
		if left < 0 {
			left = 0
		}
		r["left"] = left
		return r
	}
	panic("unknown operation " + str("op"))
}

func (g *group) parsed(out []byte, un func([]byte, interface{}) error) []interface{} {
	var v interface{}
	if string(out) == "null" { // hjson.Unmarshal does not take a lone null
		return []interface{}{enc(nil, g.ids)}
	}
	if err := un(out, &v); err != nil {
		return []interface{}{[]interface{}{"x", err.Error() + ": " + string(out)}}
	}
	return []interface{}{enc(v, g.ids)}
}

// Changes every box within a value in place.
func poke(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			poke(e)
			_ = k
		}
		x["poked"] = true
	case []interface{}:
		for i, e := range x {
			poke(e)
			x[i] = "poked"
		}
	}
}

func (g *group) reset(e obj) {
	g.docs, g.ids, g.funcs = map[string]*jom.JsonMap{}, map[string]string{}, map[string]callback{}
	g.st, _ = e["st"].(obj)
	g.ints, _ = e["ints"].(bool)
	if n, ok := e["delay"]; ok {
		globals.HaltingDelay = toInt(n)
	}
	for h, doc := range e["docs"].(obj) {
		d := doc.(obj)
		m := jom.NewFromMap(g.dec(d["root"]).(map[string]interface{}))
		m.Array = d["arr"].(bool)
		g.docs[h] = m
	}
	text, _ := json.Marshal(g.dump())
	g.shown = string(text)
	g.base = runtime.NumGoroutine()
}

// Operations which must never take this long.
const opLimit = 40 * time.Second

func (g *group) step(e obj, limit bool) {
	op := e["op"].(string)
	if op == "reset" {
		g.reset(e)
		g.emit(e)
		return
	}
	if limit {
		most := opLimit
		if n, ok := e["limit"]; ok {
			most = time.Duration(toInt(n)) * time.Second
		}
		defer time.AfterFunc(most, func() { os.Exit(97) }).Stop()
	}
	if op == "run" {
		g.emit(obj{"op": "runstart", "h": e["h"]})
	}
	before := time.Now()
	r := g.perform(e)
	most := 300
	if op == "run" {
		most = 20000
	}
	if s, ok := r["text"].(string); ok && len(s) > most {
		r["text"] = strings.ToValidUTF8(s[:most], "")
	}
	r["ms"] = time.Since(before).Milliseconds()
	out := obj{}
	for k, v := range e {
		out[k] = v
	}
	if op == "run" {
		out["op"] = "runend"
	}
	out["r"] = r
	g.state(out)
	g.emit(out)
}

// Adds the documents to an event, if they are not as they were in the event before.
func (g *group) state(out obj) {
	docs := g.dump()
	text, _ := json.Marshal(docs)
	out["same"] = string(text) == g.shown
	if string(text) != g.shown {
		out["docs"] = docs
		g.shown = string(text)
	}
}

func readGroups(name string) (groups []*group) {
	f, err := os.Open(name)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	in := bufio.NewReaderSize(f, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			dec := json.NewDecoder(bytes.NewReader(line))
			dec.UseNumber()
			var e obj
			if derr := dec.Decode(&e); derr != nil {
				panic(derr)
			}
			if e["op"] == "reset" {
				name, _ := e["name"].(string)
				groups = append(groups, &group{name: name})
			}
			g := groups[len(groups)-1]
			g.lines = append(g.lines, e)
		}
		if err == io.EOF {
			return groups
		}
	}
}

func main() {
	if os.Args[1] == "hjson" {
		readTexts(os.Args[2], os.Args[3])
		return
	}
	mode, groups := os.Args[1], readGroups(os.Args[2])
	file, err := os.Create(os.Args[3])
	if err != nil {
		panic(err)
	}
	// The error stream is kept for what the runtime says about a crash
	out := bufio.NewWriterSize(file, 1<<16)
	write := func(e interface{}) {
		var b bytes.Buffer
		en := json.NewEncoder(&b)
		en.SetEscapeHTML(false)
		if err := en.Encode(e); err != nil {
			panic(err)
		}
		_, _ = out.Write(b.Bytes())
	}
	var current *group
	route := func(id string) *group { return current }
	if mode == "conc" {
		byName := map[string]*group{}
		for _, g := range groups {
			byName[g.name] = g
		}
		route = func(id string) *group {
			if g, ok := byName[strings.SplitN(id, ".", 2)[0]]; ok {
				return g
			}
			return groups[0]
		}
	}
	js.ExternalConsoleLogStdout = &console{stream: "out", route: route}
	js.ExternalConsoleLogStderr = &console{stream: "err", route: route}

	switch mode {
	case "run":
		for _, g := range groups {
			current = g
			g.sink = func(e obj) { write(e) }
			for _, e := range g.lines {
				_ = out.Flush()
				g.step(e, true)
			}
		}
	case "conc":
		var wg sync.WaitGroup
		for _, g := range groups {
			g := g
			g.sink = func(e obj) { g.events = append(g.events, e) }
			g.step(g.lines[0], false)
		}
		watchdog := time.AfterFunc(4*opLimit, func() { os.Exit(97) })
		for _, g := range groups {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				if shared, _ := g.lines[0]["shared"].(bool); shared {
					g.runShared()
					return
				}
				for _, e := range g.lines[1:] {
					g.step(e, false)
				}
			}()
		}
		wg.Wait()
		watchdog.Stop()
		for _, g := range groups {
			for _, e := range g.events {
				write(e)
			}
		}
	}
	_ = out.Flush()
	_ = file.Close()
}

// Reads of the same document, all at once.
func (g *group) runShared() {
	results := make([]obj, len(g.lines))
	var wg sync.WaitGroup
	for i := 1; i < len(g.lines); i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = g.perform(g.lines[i])
		}(i)
	}
	wg.Wait()
	for i := 1; i < len(g.lines); i++ {
		out := obj{}
		for k, v := range g.lines[i] {
			out[k] = v
		}
		out["r"] = results[i]
		g.state(out)
		g.emit(out)
	}
}

// Reads texts, one JSON string a line, and writes the value of each.
func readTexts(name, out string) {
	in, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	en := json.NewEncoder(&b)
	en.SetEscapeHTML(false)
	dec := json.NewDecoder(bytes.NewReader(in))
	for {
		var text string
		if err := dec.Decode(&text); err != nil {
			break
		}
		var v interface{}
		if err := hjson.Unmarshal([]byte(text), &v); err != nil {
			_ = en.Encode([]interface{}{"x", err.Error()})
			continue
		}
		_ = en.Encode(enc(v, nil))
	}
	if err := os.WriteFile(out, b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
