package store

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/zhiqiangxu/mondis"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

// wop is one atomic step of a crash plan: a single write, a transaction or a batch.
type wop struct {
	Kind string // "put", "txn", "batch"
	W    []wkv
}

type wkv struct {
	K   string
	V   []byte
	Del bool
}

func (o wop) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s{", o.Kind)
	for i, w := range o.W {
		if i > 0 {
			b.WriteString(" ")
		}
		if i == 8 {
			fmt.Fprintf(&b, "... %d in all", len(o.W))
			break
		}
		if w.Del {
			fmt.Fprintf(&b, "-%s", hx.QS(w.K))
		} else {
			fmt.Fprintf(&b, "%s=%s", hx.QS(w.K), hx.Q(w.V))
		}
	}
	return b.String() + "}"
}

func (o wop) apply(m map[string][]byte) {
	for _, w := range o.W {
		if w.Del {
			delete(m, w.K)
		} else {
			m[w.K] = w.V
		}
	}
}

func (o wop) do(db mondis.KVDB) error {
	switch o.Kind {
	case "put":
		w := o.W[0]
		if w.Del {
			return db.Delete([]byte(w.K))
		}
		return db.Set([]byte(w.K), w.V, nil)
	case "txn":
		txn := db.NewTransaction(true)
		defer txn.Discard()
		for _, w := range o.W {
			var err error
			if w.Del {
				err = txn.Delete([]byte(w.K))
			} else {
				err = txn.Set([]byte(w.K), w.V, nil)
			}
			if err != nil {
				return err
			}
		}
		return txn.Commit()
	default:
		b := db.WriteBatch()
		defer b.Discard()
		for _, w := range o.W {
			var err error
			if w.Del {
				err = b.Delete([]byte(w.K))
			} else {
				err = b.Set([]byte(w.K), w.V)
			}
			if err != nil {
				return err
			}
		}
		return b.Commit()
	}
}

func drawWop(rt *rapid.T, kind, suffix string, big bool) wop {
	o := wop{Kind: "put"}
	n := 1
	switch r := rapid.IntRange(0, 5).Draw(rt, "opKind"); {
	case r >= 4 || (kind == "leveldb" && r >= 3):
		o.Kind = "batch"
		n = rapid.IntRange(1, 6).Draw(rt, "opSize")
	case r >= 2 && kind == "badger":
		o.Kind = "txn"
		n = rapid.IntRange(1, 6).Draw(rt, "opSize")
	}
	// a badger batch of many operations may take several transactions
	if (o.Kind == "txn" || o.Kind == "batch" && kind == "leveldb") && rapid.IntRange(0, 9).Draw(rt, "many") == 0 {
		n = rapid.SampledFrom([]int{60, 130, 260, 520, 1100, 2500}).Draw(rt, "opMany")
		from := rapid.IntRange(0, 20).Draw(rt, "from")
		for i := 0; i < n; i++ {
			w := wkv{K: suffix + fmt.Sprintf("many%d", from+i), Del: i%7 == 3}
			if !w.Del {
				w.V = []byte(fmt.Sprintf("value %d of %d", i, n))
			}
			o.W = append(o.W, w)
		}
		return o
	}
	for i := 0; i < n; i++ {
		w := wkv{K: string(hx.SmallKey(rt, "k")) + suffix, Del: rapid.IntRange(0, 3).Draw(rt, "del") == 0}
		if big && !w.Del && rapid.IntRange(0, 2).Draw(rt, "big") == 0 {
			w.V = hx.Fill(rapid.IntRange(10000, 300000).Draw(rt, "bigLen"), 'b')
			if kind == "badger" { // what fills memory tables are keys
				w.K += string(hx.Fill(60000, 'k'))
			}
		} else if !w.Del {
			w.V = hx.Value(rt, "v")
		}
		o.W = append(o.W, w)
	}
	return o
}

func cloneMap(m map[string][]byte) map[string][]byte {
	n := make(map[string][]byte, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

type fileInfo map[string]int64

func dirSizes(dir string) fileInfo {
	out := fileInfo{}
	es, err := os.ReadDir(dir)
	if err != nil {
		hx.Infra("readdir: %v", err)
	}
	for _, e := range es {
		if fi, err := e.Info(); err == nil && !fi.IsDir() {
			out[e.Name()] = fi.Size()
		}
	}
	return out
}

type fileStamp struct {
	size int64
	mod  time.Time
}

func dirStamps(dir string) map[string]fileStamp {
	out := map[string]fileStamp{}
	es, err := os.ReadDir(dir)
	if err != nil {
		hx.Infra("readdir: %v", err)
	}
	for _, e := range es {
		if fi, err := e.Info(); err == nil && !fi.IsDir() {
			out[e.Name()] = fileStamp{fi.Size(), fi.ModTime()}
		}
	}
	return out
}

// copyDir copies a directory as it is at one moment: when the store's own background work changes it
// meanwhile, the copy is made again.
func copyDir(from, to string) {
	for try := 0; ; try++ {
		before := dirStamps(from)
		err := copyFiles(from, to, before)
		if err == nil && reflect.DeepEqual(before, dirStamps(from)) {
			return
		}
		if try == 200 {
			hx.Infra("copy: the directory does not settle: %v", err)
		}
		_ = os.RemoveAll(to)
		time.Sleep(5 * time.Millisecond)
	}
}

func copyFiles(from, to string, names map[string]fileStamp) error {
	if err := os.MkdirAll(to, 0o755); err != nil {
		return err
	}
	for name := range names {
		src, err := os.Open(filepath.Join(from, name))
		if err != nil {
			return err
		}
		dst, err := os.Create(filepath.Join(to, name))
		if err == nil {
			_, err = io.Copy(dst, src)
			dst.Close()
		}
		src.Close()
		if err != nil {
			return err
		}
	}
	return nil
}

// contents reads the whole store, by scan and by get of every key that was ever used.
func contents(rt *rapid.T, where string, db mondis.KVDB, used []string) map[string][]byte {
	got := map[string][]byte{}
	if err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		got[string(k)] = hx.Copy(v)
		return true
	}); err != nil {
		rt.Fatalf("%s: scan: %v", where, err)
	}
	for _, k := range used {
		v, ok := got[k]
		checkKey(rt, where, db, k, v, ok)
	}
	return got
}

func sameMap(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || string(v) != string(w) {
			return false
		}
	}
	return true
}

func mapString(m map[string][]byte) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%s ", hx.QS(k), hx.Q(m[k]))
	}
	return b.String()
}

// The directory of an open store, as a kill would leave it between operations or in the middle
// of the write an operation makes, opens again with a state that loses nothing acknowledged.
func p04Torn(t *testing.T, kind string, n hx.N) {
	hx.Run(t, n, "the kill strikes while the log is being written, at least one operation having been acknowledged",
		func(rt *rapid.T, c *hx.Case) {
			root := hx.Scratch(t, "crash")
			defer os.RemoveAll(root)
			dir := filepath.Join(root, "db0")
			if err := os.Mkdir(dir, 0o755); err != nil {
				hx.Infra("mkdir: %v", err)
			}
			l := &live{kind: kind, dir: dir}
			l.open(nil)
			defer func() { _ = l.db.Close() }()
			model := map[string][]byte{}
			used := map[string]bool{}
			steps := rapid.IntRange(1, 10).Draw(rt, "steps")
			crashAt := rapid.IntRange(0, steps-1).Draw(rt, "crashAt")
			for i := 0; i < steps; i++ {
				if i > 0 && i != crashAt && rapid.IntRange(0, 15).Draw(rt, "reopen") == 15 {
					l.reopen(rt)
					c.Step("reopen")
					c.Class("clean reopen before")
				}
				o := drawWop(rt, kind, "", false)
				for _, w := range o.W {
					used[w.K] = true
				}
				before := cloneMap(model)
				pre := dirSizes(dir)
				if err := o.do(l.db); err != nil {
					rt.Fatalf("%v: %v", o, err)
				}
				o.apply(model)
				c.Step("%v", o)
				if i != crashAt {
					continue
				}
				tries := rapid.IntRange(1, 3).Draw(rt, "tears")
				for j := 0; j < tries; j++ {
					crashed := filepath.Join(root, fmt.Sprintf("db%d_%d", i+1, j))
					copyDir(dir, crashed)
					post := dirSizes(crashed)
					grown := ""
					for name, sz := range post {
						if pre[name] != sz {
							if grown != "" || sz < pre[name] {
								grown = ""
								break
							}
							grown = name
						}
					}
					cut := int64(-1)
					if grown != "" && rapid.IntRange(0, 5).Draw(rt, "whole") > 0 {
						cut = pre[grown] + rapid.Int64Range(0, post[grown]-pre[grown]).Draw(rt, "cut")
					}
					allowed := []map[string][]byte{model}
					if cut >= 0 {
						if err := os.Truncate(filepath.Join(crashed, grown), cut); err != nil {
							hx.Infra("truncate: %v", err)
						}
						c.Step("kill with %d of %d bytes written", cut-pre[grown], post[grown]-pre[grown])
						if cut < post[grown] {
							allowed = append(allowed, before)
							c.NonTrivialIf(i > 0 && cut > pre[grown])
							c.Class("torn write")
						}
						if cut == pre[grown] {
							allowed = []map[string][]byte{before}
							c.Class("nothing written")
						}
					} else {
						c.Step("kill after acknowledgement")
						c.Class("kill between operations")
					}
					p04Recover(rt, c, kind, crashed, allowed, sortedKeys(used))
				}
			}
		})
}

// p04Recover opens what a kill left, compares, and makes sure that the store goes on working.
func p04Recover(rt *rapid.T, c *hx.Case, kind, dir string, allowed []map[string][]byte, used []string) {
	r := &live{kind: kind, dir: dir}
	r.db = ctors[kind]()
	if err := r.db.Open(mondis.KVOption{Dir: dir}); err != nil {
		rt.Fatalf("%s does not open after a kill: %v\nhistory: %s", kind, err, c.Trace())
	}
	closed := false
	defer func() {
		if !closed {
			_ = r.db.Close()
		}
	}()
	got := contents(rt, kind+" after a kill", r.db, used)
	ok := false
	for _, a := range allowed {
		ok = ok || sameMap(a, got)
	}
	if !ok {
		rt.Fatalf("%s after a kill holds %s\nallowed: %s\nhistory: %s", kind, mapString(got), mapString(allowed[len(allowed)-1]), c.Trace())
	}
	if err := r.db.Set([]byte("after"), []byte("kill"), nil); err != nil {
		rt.Fatalf("%s refuses a write after a kill: %v", kind, err)
	}
	got["after"] = []byte("kill")
	if again := contents(rt, kind+" after a kill", r.db, used); !sameMap(again, got) {
		rt.Fatalf("%s after a kill and a write holds %s, want %s\nhistory: %s", kind, mapString(again), mapString(got), c.Trace())
	}
	if rapid.IntRange(0, 2).Draw(rt, "killAgain") == 0 {
		c.Class("second kill")
		again := dir + "again"
		copyDir(dir, again)
		_ = r.db.Close()
		r.dir = again
		r.db = ctors[kind]()
		if err := r.db.Open(mondis.KVOption{Dir: again}); err != nil {
			rt.Fatalf("%s does not open after a second kill: %v\nhistory: %s", kind, err, c.Trace())
		}
	} else {
		r.reopen(rt)
	}
	if again := contents(rt, kind+" after a kill and another start", r.db, used); !sameMap(again, got) {
		rt.Fatalf("%s after a kill and another start holds %s, want %s\nhistory: %s", kind, mapString(again), mapString(got), c.Trace())
	}
	closed = true
	if err := r.db.Close(); err != nil {
		rt.Fatalf("close: %v", err)
	}
}

func TestP04_TornBadger(t *testing.T)  { p04Torn(t, "badger", hx.N{Quick: 220, Thorough: 1500}) }
func TestP04_TornLevelDB(t *testing.T) { p04Torn(t, "leveldb", hx.N{Quick: 700, Thorough: 4000}) }

type killPlan struct {
	Kind    string
	Dir     string
	Workers [][]wop
}

// TestMain lets the test binary also be the process that gets killed.
func TestMain(m *testing.M) {
	if p := os.Getenv("VERIF_KILL_PLAN"); p != "" {
		killChild(p)
		return
	}
	os.Exit(m.Run())
}

func killChild(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("E", err)
		os.Exit(3)
	}
	var plan killPlan
	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&plan); err != nil {
		fmt.Println("E", err)
		os.Exit(3)
	}
	db := ctors[plan.Kind]()
	if err := db.Open(mondis.KVOption{Dir: plan.Dir}); err != nil {
		fmt.Println("E open", err)
		os.Exit(4)
	}
	done := make(chan struct{})
	for w := range plan.Workers {
		go func(w int) {
			defer func() { done <- struct{}{} }()
			for i, o := range plan.Workers[w] {
				os.Stdout.WriteString(fmt.Sprintf("I %d %d\n", w, i))
				if err := o.do(db); err != nil {
					os.Stdout.WriteString(fmt.Sprintf("E %d %d %v\n", w, i, err))
					return
				}
				os.Stdout.WriteString(fmt.Sprintf("A %d %d\n", w, i))
			}
		}(w)
	}
	for range plan.Workers {
		<-done
	}
	os.Stdout.WriteString("C\n")
	if err := db.Close(); err != nil {
		os.Stdout.WriteString("E close " + err.Error() + "\n")
	}
	os.Stdout.WriteString("D\n")
	os.Exit(0)
}

// A process writing through the provider is really killed, several times over in one directory.
func p04Kill(t *testing.T, kind string, n hx.N) {
	hx.Run(t, n, "the process is killed after at least one acknowledged write and before it ends by itself",
		func(rt *rapid.T, c *hx.Case) {
			root := hx.Scratch(t, "kill")
			defer os.RemoveAll(root)
			dir := filepath.Join(root, "db")
			_ = os.Mkdir(dir, 0o755)
			nw := rapid.IntRange(1, 4).Draw(rt, "workers")
			models := make([]map[string][]byte, nw)
			for w := range models {
				models[w] = map[string][]byte{}
			}
			used := map[string]bool{}
			big := rapid.IntRange(0, 3).Draw(rt, "bigValues") == 3
			for life := rapid.IntRange(1, 3).Draw(rt, "lives"); life > 0; life-- {
				plan := killPlan{Kind: kind, Dir: dir, Workers: make([][]wop, nw)}
				for w := range plan.Workers {
					for i := rapid.IntRange(1, 12).Draw(rt, "ops"); i > 0; i-- {
						o := drawWop(rt, kind, strconv.Itoa(w), big)
						plan.Workers[w] = append(plan.Workers[w], o)
						for _, x := range o.W {
							used[x.K] = true
						}
					}
				}
				events := rapid.IntRange(1, 20*nw).Draw(rt, "killAfterEvents")
				delay := rapid.IntRange(0, 1500).Draw(rt, "killDelayMicros")
				var buf bytes.Buffer
				if err := gob.NewEncoder(&buf).Encode(plan); err != nil {
					hx.Infra("plan: %v", err)
				}
				pf := filepath.Join(root, "plan")
				if err := os.WriteFile(pf, buf.Bytes(), 0o644); err != nil {
					hx.Infra("plan: %v", err)
				}
				cmd := exec.Command(os.Args[0], "-test.run=^$")
				cmd.Env = append(os.Environ(), "VERIF_KILL_PLAN="+pf)
				cmd.Stderr = nil
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				out, err := cmd.StdoutPipe()
				if err != nil {
					hx.Infra("pipe: %v", err)
				}
				if err := cmd.Start(); err != nil {
					hx.Infra("start: %v", err)
				}
				acked, issued := make([]int, nw), make([]int, nw)
				ended, killed, failure := false, false, ""
				sc := bufio.NewScanner(out)
				seen, acks := 0, 0
				for sc.Scan() {
					f := strings.Fields(sc.Text())
					if len(f) == 0 {
						continue
					}
					seen++
					switch f[0] {
					case "I", "A":
						w, _ := strconv.Atoi(f[1])
						i, _ := strconv.Atoi(f[2])
						if f[0] == "I" {
							issued[w] = i + 1
						} else {
							acked[w] = i + 1
							acks++
						}
					case "D":
						ended = true
					case "E":
						failure = sc.Text()
					}
					if seen == events && !killed {
						killed = true
						time.Sleep(time.Duration(delay) * time.Microsecond)
						_ = cmd.Process.Kill()
					}
				}
				_ = cmd.Process.Kill()
				_ = cmd.Wait()
				if failure != "" {
					rt.Fatalf("%s: an operation fails: %s\nhistory: %s", kind, failure, c.Trace())
				}
				c.Step("life: %v killed after %d lines (%v), acknowledged %v issued %v", plan.Workers, seen, killed && !ended, acked, issued)
				c.NonTrivialIf(killed && !ended && acks > 0)
				c.ClassIf(killed && !ended, "killed")
				c.ClassIf(ended, "ended by itself")
				c.ClassIf(big, "big values")
				r := &live{kind: kind, dir: dir}
				r.db = ctors[kind]()
				if err := r.db.Open(mondis.KVOption{Dir: dir}); err != nil {
					rt.Fatalf("%s does not open after a kill: %v\nhistory: %s", kind, err, c.Trace())
				}
				got := contents(rt, kind+" after a kill", r.db, sortedKeys(used))
				for w := 0; w < nw; w++ {
					mine := map[string][]byte{}
					for k, v := range got {
						if owner(k, nw) == w {
							mine[k] = v
						}
					}
					m := models[w]
					for _, o := range plan.Workers[w][:acked[w]] {
						o.apply(m)
					}
					ok := sameMap(m, mine)
					if !ok && issued[w] > acked[w] { // the operation that was cut off may be in or out
						plan.Workers[w][acked[w]].apply(m)
						ok = sameMap(m, mine)
						c.ClassIf(ok, "cut-off operation survived")
					}
					if !ok {
						_ = r.db.Close()
						rt.Fatalf("%s after a kill: worker %d acknowledged %d operations, the store holds %s\nhistory: %s", kind, w, acked[w], mapString(mine), c.Trace())
					}
					models[w] = mine
				}
				if err := r.db.Close(); err != nil {
					rt.Fatalf("close: %v", err)
				}
			}
		})
}

func owner(k string, nw int) int {
	for w := 0; w < nw; w++ {
		if i := strings.IndexByte(k, byte('0'+w)); i >= 0 && i <= 3 {
			return w
		}
	}
	return -1
}

func TestP04_KillBadger(t *testing.T)  { p04Kill(t, "badger", hx.N{Quick: 40, Thorough: 400}) }
func TestP04_KillLevelDB(t *testing.T) { p04Kill(t, "leveldb", hx.N{Quick: 60, Thorough: 600}) }
