"""Generated code driven through its exported API: one Go program per batch of schemas."""
import json, os, re, resource, subprocess, threading, queue, time
from . import core
from .core import Infra, log

MAIN = r'''
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	zserio "github.com/woven-planet/go-zserio"
	"github.com/woven-planet/go-zserio/zstream"
	"github.com/woven-planet/go-zserio/ztype"
%(imports)s
)

var registry = map[string]func() any{
%(registry)s
}

var (
	tBytes  = reflect.TypeOf(ztype.BytesType{})
	tExtern = reflect.TypeOf(ztype.ExternType{})
)

func limbs(u uint64) []any {
	return []any{u >> 48, (u >> 32) & 0xffff, (u >> 16) & 0xffff, u & 0xffff}
}

func unlimb(j any) uint64 {
	a := j.([]any)
	var u uint64
	for _, x := range a {
		u = u<<16 | uint64(x.(float64))
	}
	return u
}

func byteList(b []byte) []any {
	r := make([]any, len(b))
	for i, x := range b {
		r[i] = x
	}
	return r
}

func unbytes(j any) []byte {
	a := j.([]any)
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x.(float64))
	}
	return b
}

// schema name -> field index of a generated struct
func fieldsOf(t reflect.Type) map[string]int {
	m := map[string]int{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if tag := f.Tag.Get("json"); tag != "" {
			m[tag] = i
		} else if f.Name == "UnionChoice" {
			m[f.Name] = i
		} else {
			m[strings.ToLower(f.Name[:1])+f.Name[1:]] = i
		}
	}
	return m
}

func set(v reflect.Value, j any) {
	if j == nil {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(j.(bool))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(unlimb(j)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(unlimb(j))
	case reflect.Float32:
		// not SetFloat: a float64 detour would quiet signalling NaNs
		*(v.Addr().Convert(reflect.TypeOf((*float32)(nil))).Interface().(*float32)) = math.Float32frombits(uint32(unlimb(j)))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(unlimb(j)))
	case reflect.String:
		v.SetString(string(unbytes(j)))
	case reflect.Slice:
		a := j.([]any)
		s := reflect.MakeSlice(v.Type(), len(a), len(a))
		for i := range a {
			set(s.Index(i), a[i])
		}
		v.Set(s)
	case reflect.Pointer:
		e := v.Type().Elem()
		if e == tBytes || e == tExtern {
			n := reflect.New(e)
			set(n.Elem(), j)
			v.Set(n)
			return
		}
		a := j.([]any)
		if len(a) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		n := reflect.New(e)
		set(n.Elem(), a[0])
		v.Set(n)
	case reflect.Struct:
		m := j.(map[string]any)
		if v.Type() == tBytes {
			v.Set(reflect.ValueOf(ztype.BytesType{Buffer: unbytes(m["b"]), ByteSize: uint64(m["n"].(float64))}))
			return
		}
		if v.Type() == tExtern {
			v.Set(reflect.ValueOf(ztype.ExternType{Buffer: unbytes(m["b"]), BitSize: uint64(m["n"].(float64))}))
			return
		}
		fs := fieldsOf(v.Type())
		for name, x := range m {
			i, ok := fs[name]
			if !ok {
				panic("harness: no field " + name + " in " + v.Type().String())
			}
			set(v.Field(i), x)
		}
	default:
		panic("harness: kind " + v.Kind().String())
	}
}

func get(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return limbs(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return limbs(v.Uint())
	case reflect.Float32:
		c := reflect.New(v.Type())
		c.Elem().Set(v)
		return limbs(uint64(math.Float32bits(*(c.Convert(reflect.TypeOf((*float32)(nil))).Interface().(*float32)))))
	case reflect.Float64:
		return limbs(math.Float64bits(v.Float()))
	case reflect.String:
		return byteList([]byte(v.String()))
	case reflect.Slice:
		r := make([]any, v.Len())
		for i := range r {
			r[i] = get(v.Index(i))
		}
		return r
	case reflect.Pointer:
		e := v.Type().Elem()
		if e == tBytes || e == tExtern {
			if v.IsNil() {
				return map[string]any{"b": []any{}, "n": 0}
			}
			return get(v.Elem())
		}
		if v.IsNil() {
			return []any{}
		}
		return []any{get(v.Elem())}
	case reflect.Struct:
		if v.Type() == tBytes {
			b := v.Interface().(ztype.BytesType)
			return map[string]any{"b": byteList(b.Buffer), "n": b.ByteSize}
		}
		if v.Type() == tExtern {
			b := v.Interface().(ztype.ExternType)
			return map[string]any{"b": byteList(b.Buffer), "n": b.BitSize}
		}
		r := map[string]any{}
		for name, i := range fieldsOf(v.Type()) {
			r[name] = get(v.Field(i))
		}
		return r
	}
	panic("harness: kind " + v.Kind().String())
}

func make_(name string, j any) any {
	mk, ok := registry[name]
	if !ok {
		panic("harness: no type " + name)
	}
	o := mk()
	if j != nil {
		set(reflect.ValueOf(o).Elem(), j)
	}
	return o
}

// guarded call: "ok", "err" or "panic" and a message
func call(f func() error) (res, msg string) {
	defer func() {
		if p := recover(); p != nil {
			res = "panic"
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			msg = fmt.Sprint(p) + "\n" + st
		}
	}()
	if err := f(); err != nil {
		return "err", err.Error()
	}
	return "ok", ""
}

type sink struct {
	buf  bytes.Buffer
	max  int  // bytes accepted; negative: no limit
	once bool // only one write fails
	n    int
	part bool // a short write accepts what fits
	hits int
}

var errSink = errors.New("sink is full")

func (s *sink) fail() bool {
	if s.max >= 0 && s.n >= s.max {
		if s.once && s.hits > 0 {
			return false
		}
		return true
	}
	return false
}

func (s *sink) fail2() bool { return !s.once || s.hits == 0 }

func (s *sink) Write(p []byte) (int, error) {
	if !s.part && s.max >= 0 && s.n+len(p) > s.max && s.fail2() {
		// nothing of this write is taken
		s.hits++
		return 0, errSink
	}
	for i, c := range p {
		if s.fail() {
			s.hits++
			return i, errSink
		}
		s.buf.WriteByte(c)
		s.n++
	}
	return len(p), nil
}

func (s *sink) WriteByte(c byte) error {
	if s.fail() {
		s.hits++
		return errSink
	}
	s.buf.WriteByte(c)
	s.n++
	return nil
}

// source fails with its own error after max bytes
type source struct {
	b   []byte
	pos int
	max int
	err error
	// at most so many bytes at once; the last ones come with the end of the input
	chunk int
}

var errSource = errors.New("source is broken")

func (s *source) Read(p []byte) (int, error) {
	if s.max >= 0 && s.pos >= s.max {
		return 0, errSource
	}
	if s.pos >= len(s.b) {
		return 0, io.EOF
	}
	e := len(s.b)
	if s.max >= 0 && e > s.max {
		e = s.max
	}
	if s.chunk > 0 && e > s.pos+s.chunk {
		e = s.pos + s.chunk
	}
	n := copy(p, s.b[s.pos:e])
	s.pos += n
	if s.chunk > 0 && s.max < 0 && s.pos == len(s.b) && n > 0 && s.chunk&1 == 1 {
		return n, io.EOF
	}
	return n, nil
}

func (s *source) ReadByte() (byte, error) {
	var b [1]byte
	if n, err := s.Read(b[:]); n == 0 {
		return 0, err
	}
	return b[0], nil
}

// some sources give their bytes in small parts
func sourceOf(b []byte, st int) zstream.Reader {
	if k := []int{0, 1, 2, 5}[(len(b)+st)&3]; k > 0 {
		return &source{b: b, max: -1, chunk: k}
	}
	return bytes.NewReader(b)
}

const filler = 0x5a5a5a5a5a5a5a5a

func skipIn(r *zstream.BitReader, n int) {
	for n > 0 {
		k := n
		if k > 32 {
			k = 32
		}
		if _, err := r.ReadBits(uint8(k)); err != nil {
			panic("harness: input shorter than its start offset")
		}
		n -= k
	}
}

func skipOut(w *zstream.BitWriter, n int) {
	for n > 0 {
		k := n
		if k > 32 {
			k = 32
		}
		if err := w.WriteBits(filler, uint8(k)); err != nil {
			panic("harness: " + err.Error())
		}
		n -= k
	}
}

func num(c map[string]any, k string, def int) int {
	if x, ok := c[k]; ok {
		return int(x.(float64))
	}
	return def
}

func size(o any, st int) int {
	z := -1
	call(func() error {
		n, err := o.(zserio.Marshaler).ZserioBitSize(st)
		if err == nil {
			z = n
		}
		return err
	})
	return z
}

// marshal the objects one after the other into one stream
func encode(c map[string]any, out map[string]any) {
	st := num(c, "st", 0)
	s := &sink{max: -1}
	w := zstream.NewWriter(s)
	skipOut(w, st)
	objs := []any{}
	for _, x := range c["objs"].([]any) {
		m := x.(map[string]any)
		objs = append(objs, make_(m["t"].(string), m["v"]))
	}
	// the functions for whole objects; their results are kept until the end
	whole := len(objs) == 1 && st == 0
	var kept []byte
	wr, wmsg := "", ""
	if whole {
		wr, wmsg = call(func() (err error) { kept, err = zserio.Marshal(objs[0].(zserio.Marshaler)); return err })
	}
	res := []any{}
	for _, o := range objs {
		pos := int(w.BitPosition())
		z := size(o, pos)
		r, msg := call(func() error { return o.(zserio.Marshaler).MarshalZserio(w) })
		res = append(res, map[string]any{"r": r, "msg": msg, "st": pos, "e": w.BitPosition(), "z": z})
		if r != "ok" {
			break
		}
	}
	r, msg := call(w.Close)
	out["close"], out["closemsg"] = r, msg
	out["res"] = res
	out["b"] = byteList(s.buf.Bytes())
	if whole {
		call(func() error { _, err := zserio.Marshal(objs[0].(zserio.Marshaler)); return err })
		call(func() error { _, err := zserio.Marshal(one{}); return err })
		q := res[0].(map[string]any)
		if wr == "err" && len(kept) > 0 {
			wr = "ok"
		}
		rr := r
		if q["r"] != "ok" {
			rr = q["r"].(string)
		}
		if rr != wr || rr == "ok" && !bytes.Equal(kept, s.buf.Bytes()) {
			q["top"] = map[string]any{"r": wr, "b": byteList(kept), "msg": "zserio.Marshal: " + wmsg}
		}
	}
	if sinks, ok := c["sinks"]; ok {
		sk := []any{}
		for _, x := range sinks.([]any) {
			m := x.(map[string]any)
			s := &sink{max: num(m, "max", -1), once: m["once"] == true, part: m["part"] == true}
			w := zstream.NewWriter(s)
			msgs := ""
			var errs []error
			r := "ok"
			for _, o := range objs {
				rr, msg := call(func() error { err := o.(zserio.Marshaler).MarshalZserio(w); errs = append(errs, err); return err })
				msgs += msg
				if rr != "ok" {
					r = rr
					break
				}
			}
			cr, msg := call(func() error { err := w.Close(); errs = append(errs, err); return err })
			msgs += msg
			desc := strings.Contains(msgs, errSink.Error())
			for _, e := range errs {
				desc = desc || errors.Is(e, errSink)
			}
			sk = append(sk, map[string]any{"max": s.max, "got": byteList(s.buf.Bytes()), "r": r, "c": cr, "x": desc})
		}
		out["sk"] = sk
	}
	if _, ok := c["after"]; ok {
		a := []any{}
		for _, o := range objs {
			a = append(a, get(reflect.ValueOf(o).Elem()))
		}
		out["after"] = a
	}
}

// an object of eight bytes, all bits set
type one struct{}

func (one) LoadDefaultValues() error                           { return nil }
func (one) MarshalZserio(w zserio.Writer) error                { return w.WriteBits(1<<64-1, 64) }
func (one) ZserioBitSize(int) (int, error)                     { return 64, nil }

func decode(c map[string]any, out map[string]any) {
	var src io.Reader
	b := unbytes(c["b"])
	if f := num(c, "fail", -1); f >= 0 {
		src = &source{b: b, max: f}
	} else {
		src = sourceOf(b, num(c, "st", 0))
	}
	r := zstream.NewReader(src.(zstream.Reader))
	skipIn(r, num(c, "st", 0))
	res := []any{}
	for _, x := range c["objs"].([]any) {
		m := x.(map[string]any)
		o := make_(m["t"].(string), m["v"])
		st, _ := r.Align(1)
		var uerr error
		rr, msg := call(func() error { uerr = o.(zserio.Unmarshaler).UnmarshalZserio(r); return uerr })
		e, _ := r.Align(1)
		d := map[string]any{"r": rr, "msg": msg, "st": st, "e": e, "src": strings.Contains(msg, errSource.Error()) || errors.Is(uerr, errSource)}
		if rr == "ok" {
			d["g"] = get(reflect.ValueOf(o).Elem())
		}
		if num(c, "fail", -1) < 0 && num(c, "st", 0) == 0 && len(c["objs"].([]any)) == 1 {
			o := make_(m["t"].(string), m["v"])
			in := append([]byte{}, b...)
			wr, wmsg := call(func() error { return zserio.Unmarshal(in, o.(zserio.Unmarshaler)) })
			// the object does not depend on the bytes any more
			for k := range in {
				in[k] = ^in[k]
			}
			top := map[string]any{"r": wr, "msg": "zserio.Unmarshal: " + wmsg}
			if wr == "ok" {
				top["g"] = get(reflect.ValueOf(o).Elem())
			}
			if wr != rr || !reflect.DeepEqual(d["g"], top["g"]) {
				d["top"] = top
			}
		}
		res = append(res, d)
		if rr != "ok" {
			break
		}
	}
	out["res"] = res
}

%(extra)s

func handle(c map[string]any) (out map[string]any) {
	out = map[string]any{"id": c["id"]}
	defer func() {
		if p := recover(); p != nil {
			out["harness"] = fmt.Sprint(p) + string(debug.Stack())
		}
	}()
	switch c["op"].(string) {
	case "enc":
		encode(c, out)
	case "dec":
		decode(c, out)
	case "fns":
		o := make_(c["t"].(string), c["v"])
		fn := map[string]any{}
		for _, f := range c["f"].([]any) {
			name := f.(string)
			goName := name
			m := reflect.ValueOf(o).MethodByName(goName)
			if !m.IsValid() {
				m = reflect.ValueOf(o).MethodByName(strings.ToUpper(goName[:1]) + goName[1:])
			}
			if !m.IsValid() {
				panic("harness: no method " + name)
			}
			var v any
			r, msg := call(func() error { v = get(m.Call(nil)[0]); return nil })
			fn[name] = map[string]any{"r": r, "msg": msg, "v": v}
		}
		out["f"] = fn
	default:
		if !extra(c, out) {
			panic("harness: op " + c["op"].(string))
		}
	}
	return out
}

func main() {
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	var mu sync.Mutex
	current, since := "", time.Now()
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if current != "" && time.Since(since) > 60*time.Second {
				fmt.Fprintln(os.Stderr, "harness: the call does not return: "+current)
				os.Exit(4)
			}
			mu.Unlock()
		}
	}()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 {
			if err != nil {
				break
			}
			continue
		}
		var c map[string]any
		if e := json.Unmarshal(line, &c); e != nil {
			fmt.Fprintln(os.Stderr, "harness: bad command "+e.Error())
			os.Exit(5)
		}
		mu.Lock()
		current, since = fmt.Sprint(c["id"]), time.Now()
		mu.Unlock()
		out := handle(c)
		mu.Lock()
		current = ""
		mu.Unlock()
		b, e := json.Marshal(out)
		if e != nil {
			fmt.Fprintln(os.Stderr, "harness: "+e.Error())
			os.Exit(5)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if err != nil {
			break
		}
	}
}
'''

NOEXTRA = "func extra(c, out map[string]any) bool { return false }\n"


def go_name(n):
    return n[:1].upper() + n[1:]


HANG = [60, 10]     # seconds without an answer: the first time, and from then on
HUNG = []           # what hung so far; after several of them no more is run


class Batch:
    """Generated packages of several schemas linked into one harness."""

    def __init__(self, schemas, name="b", extra=NOEXTRA, extra_imports=(), race=False, gen_args=()):
        self.schemas, self.name, self.race = schemas, name, race
        self.dir = os.path.join(core.scratch(), "mod-" + name)
        self.rejected = {}      # index -> message (generator refused)
        self.broken = {}        # index -> message (does not compile)
        core.new_module(self.dir)
        core.build_cli()

        def gen(i):
            s = schemas[i]
            s.pkg = s.pkg or "s%d" % i
            zs = os.path.join(self.dir, "zs", s.pkg + ".zs")
            os.makedirs(os.path.dirname(zs), exist_ok=True)
            with open(zs, "w") as f:
                f.write(s.text())
            return core.generate([zs], os.path.join(self.dir, "g"), "verif.test/h/g", extra=gen_args)
        for i, r in enumerate(core.pmap(gen, range(len(schemas)))):
            if r.returncode != 0:
                self.rejected[i] = core.complaint(r)
        log("%s: %d schemas generated, %d rejected" % (name, len(schemas), len(self.rejected)))
        self._build(extra, extra_imports)

    def _build(self, extra, extra_imports):
        env = core.go_env(self.race)
        alive = [i for i in range(len(self.schemas)) if i not in self.rejected]
        if not alive:
            raise core.NothingLeft(self, "the generator rejects every schema: " + next(iter(self.rejected.values())))
        pk = ["./g/" + self.schemas[i].pkg for i in alive]
        r = core.run(["go", "build"] + pk, cwd=self.dir, env=env, timeout=600)
        if r.returncode:
            # which packages are at fault?
            cur = None
            for line in r.stderr.splitlines():
                m = re.match(r"# verif\.test/h/g/(\w+)", line)
                if m:
                    cur = m.group(1)
                elif re.match(r"g/(\w+)/", line) and cur is None:
                    cur = re.match(r"g/(\w+)/", line).group(1)
                if cur:
                    i = next((i for i in alive if self.schemas[i].pkg == cur), None)
                    if i is not None:
                        self.broken[i] = (self.broken.get(i, "") + line + "\n")[:1500]
            if not self.broken:
                raise Infra("generated code does not build: " + r.stderr[-2000:])
            alive = [i for i in alive if i not in self.broken]
            if not alive:
                raise core.NothingLeft(self, "no generated package compiles: " + r.stderr[-2000:])
        self._link(alive, extra, extra_imports, env)

    def _link(self, alive, extra, extra_imports, env):
        imports, reg = [], []
        for i in alive:
            s = self.schemas[i]
            imports.append('\t%s "verif.test/h/g/%s"' % (s.pkg, s.pkg))
            for t in s.tops:
                reg.append('\t"%s.%s": func() any { return &%s.%s{} },' % (s.pkg, t, s.pkg, go_name(t)))
        with open(os.path.join(self.dir, "main.go"), "w") as f:
            f.write(MAIN % dict(imports="\n".join(imports + list(extra_imports)), registry="\n".join(reg), extra=extra))
        self.bin = os.path.join(self.dir, "harness")
        r = core.run(["go", "build"] + (["-race"] if self.race else []) + ["-o", self.bin, "."], cwd=self.dir, env=env, timeout=600)
        if r.returncode:
            # what does the generated code lack?
            lacks = {}
            for line in r.stderr.splitlines():
                m = re.search(r"main\.go:\d+:\d+: (.*)", line)
                for i in alive if m else ():
                    if re.search(r"\b%s\.\w" % re.escape(self.schemas[i].pkg), m.group(1)): lacks[i] = (lacks.get(i, "") + line + "\n")[:1500]
            self.broken.update(lacks)
            left = [i for i in alive if i not in lacks]
            if not lacks: raise Infra("harness does not build: " + r.stderr[-3000:])
            if not left: raise core.NothingLeft(self, "harness does not build: " + r.stderr[-3000:])
            return self._link(left, extra, extra_imports, env)
        self.alive = alive
        log("%s: harness built with %d packages" % (self.name, len(alive)))

    def run(self, cmds, procs=8, mem=6 << 30):
        """Run commands; result per command id.  A command that kills the process yields {"crash": text}."""
        for k, c in enumerate(cmds):
            c["id"] = k
        parts = [p for p in (cmds[k::procs] for k in range(procs)) if p]
        out = {}
        for d in core.pmap(lambda p: self._run1(p, mem), parts):
            out.update(d)
        for k, c in enumerate(cmds):
            if k not in out:
                raise Infra("no answer for command %d" % k)
            if "harness" in out[k]:
                raise Infra("harness: " + out[k]["harness"][:1500] + json.dumps(c)[:1500])
        return [out[k] for k in range(len(cmds))]

    def _run1(self, cmds, mem):
        res = {}
        todo = list(cmds)
        crashes = hangs = 0
        while todo:
            if len(HUNG) > 4:
                for c in todo: res[c["id"]] = {"id": c["id"], "crash": "not run, after several that did not return"}
                break
            data = "".join(json.dumps(c, separators=(",", ":")) + "\n" for c in todo).encode()
            lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem and not self.race else None
            env = core.go_env()
            env["GOMAXPROCS"] = "4"
            env["GORACE"] = "halt_on_error=1 exitcode=66"
            p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 preexec_fn=lim, env=env, cwd=core.scratch())
            hung = threading.Event()
            last = [time.time()]

            def feed():
                try:
                    p.stdin.write(data)
                    p.stdin.close()
                except OSError: pass

            def watch():
                while p.poll() is None:
                    if time.time() - last[0] > HANG[0]:
                        hung.set()
                        p.kill()
                        return
                    time.sleep(0.2)
            said = []
            ts = [threading.Thread(target=feed, daemon=True), threading.Thread(target=watch, daemon=True), threading.Thread(target=lambda: said.append(p.stderr.read()), daemon=True)]
            for t in ts: t.start()
            n = 0
            for raw in p.stdout:
                last[0] = time.time()
                try:
                    d = json.loads(raw.decode("utf-8", "replace"))
                except ValueError:
                    continue
                if "id" not in d: continue
                res[d["id"]] = d
                n += 1
            p.wait()
            for t in ts: t.join()
            if n >= len(todo):
                break
            err = "" if hung.is_set() else said[0].decode("utf-8", "replace")
            if p.returncode == 5 or "harness: bad command" in err:
                raise Infra("harness: " + err[-1500:])
            if hung.is_set():
                hangs += 1
                err = "does not return within %d s" % HANG[0]
                HANG[0] = HANG[1]
                HUNG.append(1)
            elif p.returncode in (-9, -15):
                raise Infra("harness was killed")
            crashes += 1
            res[todo[n]["id"]] = {"id": todo[n]["id"], "crash": err[:2500] or "exit %s" % p.returncode}
            todo = todo[n + 1:]
            if crashes > 40 or hangs > 1:
                # enough is known
                for c in todo: res[c["id"]] = {"id": c["id"], "crash": "not run, after many like this: " + err[:600]}
                break
        return res
