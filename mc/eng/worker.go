package eng

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Shared file: word 0 = stop flag, words 8.. = next index per space (64 spaces),
// words 128+8*w.. = slot of worker w: space, index, start (unix seconds; 0 = idle).
const sharedSize = 8192

type shared struct{ w []uint64 }

func openShared(path string) *shared {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(sharedSize); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, sharedSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return &shared{unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), sharedSize/8)}
}

func (s *shared) stop() *uint64       { return &s.w[0] }
func (s *shared) next(sp int) *uint64 { return &s.w[8+sp] }
func (s *shared) slot(w int) []uint64 { return s.w[128+8*w : 128+8*w+8] }
func (s *shared) stopped() bool       { return atomic.LoadUint64(s.stop()) != 0 }

// skip is the number of builds whose time is over.
func (s *shared) skip() *uint64          { return &s.w[1] }
func (s *shared) set(p *uint64, v int64) { atomic.StoreUint64(p, uint64(v)) }

type spaceStat struct {
	Name    string           `json:"name"`
	Done    int64            `json:"done"`
	Nontriv int64            `json:"nontriv"`
	Extra   map[string]int64 `json:"extra,omitempty"`
}

type violRec struct {
	Space   int        `json:"space"`
	Name    string     `json:"name"`
	Index   int64      `json:"index"`
	Case    string     `json:"case"`
	What    string     `json:"what"`
	Known   int        `json:"known"` // index into findings + 1
	History [][3]int64 `json:"history"`
	repro   string     // already confirmed, and how
}

type workerRes struct {
	Stats   []spaceStat         `json:"stats"`
	Samples map[string][]string `json:"samples"`
}

// Stopped tells a long case that the time for exploring is over.
var Stopped = func() bool { return false }

// worker args: id tier shared dir w nworkers
func worker(a []string) {
	id, tier, dir := a[0], a[1], a[3]
	w, _ := strconv.Atoi(a[4])
	sh := openShared(a[2])
	p := props[id]
	bin := uint64(envInt("VERIF_BUILD", 0))
	Stopped = func() bool { return sh.stopped() || atomic.LoadUint64(sh.skip()) > bin }
	spaces := p.Spaces(tier)
	known := map[string]int{}
	for i, f := range loadFindings() {
		if f.Property == id && f.Status == "open" {
			known[f.Space+"\x00"+f.Case] = i + 1
		}
	}
	vf, err := os.OpenFile(fmt.Sprintf("%s/viol.%d", dir, w), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	slot := sh.slot(w)
	res := workerRes{Samples: map[string][]string{}}
	keys := map[uint64]struct{}{}
	var hist [][3]int64
	for si, s := range spaces {
		st := spaceStat{Name: s.Name, Extra: map[string]int64{}}
		if s.Bin != os.Getenv("VERIF_WHICH") {
			continue
		}
		if s.Ser && w != 0 {
			res.Stats = append(res.Stats, st)
			continue
		}
		chunk := s.Chunk
		if chunk <= 0 {
			chunk = s.N / 400
			if chunk < 1 {
				chunk = 1
			}
			if chunk > 64 {
				chunk = 64
			}
		}
		for !Stopped() {
			lo := int64(atomic.AddUint64(sh.next(si), uint64(chunk))) - chunk
			if lo >= s.N {
				break
			}
			hi := lo + chunk
			if hi > s.N {
				hi = s.N
			}
			hist = append(hist, [3]int64{int64(si), lo, hi})
			for i := lo; i < hi && !Stopped(); i++ {
				sh.set(&slot[0], int64(si))
				sh.set(&slot[1], i)
				sh.set(&slot[2], time.Now().Unix())
				o := safeRun(s, i)
				sh.set(&slot[2], 0)
				st.Done++
				for k, v := range o.Extra {
					st.Extra[k] += v
				}
				if o.Viol != "" {
					d := s.Desc(i)
					h := append([][3]int64(nil), hist...)
					h[len(h)-1][2] = i
					r := violRec{si, s.Name, i, d, o.Viol, known[s.Name+"\x00"+d], h, ""}
					if r.Known != 0 {
						r.History = nil
					}
					b, _ := json.Marshal(r)
					vf.Write(append(b, '\n'))
					if r.Known == 0 {
						atomic.StoreUint64(sh.stop(), 1)
					}
					continue
				}
				if !o.Triv {
					st.Nontriv++
					if o.Key != "" || len(o.Keys) == 0 {
						keys[hash(s.Name+"\x00"+o.Key)] = struct{}{}
					}
					for _, k := range o.Keys {
						keys[hash(s.Name+"\x00"+k)] = struct{}{}
					}
				}
				if i == 0 || i == s.N/3 || i == s.N-1 {
					k := o.Key
					if len(k) > 300 {
						k = k[:300] + "..."
					}
					res.Samples[s.Name] = append(res.Samples[s.Name], s.Desc(i)+" => "+k)
				}
			}
		}
		res.Stats = append(res.Stats, st)
		runtime.GC()
	}
	kf, err := os.OpenFile(fmt.Sprintf("%s/keys.%d", dir, w), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	bw := bufio.NewWriter(kf)
	var b8 [8]byte
	for k := range keys {
		binary.LittleEndian.PutUint64(b8[:], k)
		bw.Write(b8[:])
	}
	bw.Flush()
	kf.Close()
	b, _ := json.Marshal(res)
	rf, err := os.OpenFile(fmt.Sprintf("%s/res.%d", dir, w), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		panic(err)
	}
	rf.Write(append(b, '\n'))
	rf.Close()
	os.Exit(0)
}

// one args: id tier space index [histfile]; exit 0 pass, 3 violation (text on stdout)
func one(a []string) {
	_, s := find(a[0], a[1], a[2])
	if s == nil {
		fmt.Println("no such space", a[2])
		os.Exit(4)
	}
	i, _ := strconv.ParseInt(a[3], 10, 64)
	if len(a) > 4 {
		b, err := os.ReadFile(a[4])
		if err != nil {
			panic(err)
		}
		var h [][3]int64
		if err := json.Unmarshal(b, &h); err != nil {
			panic(err)
		}
		sp := props[a[0]].Spaces(a[1])
		for _, c := range h {
			if sp[c[0]].Bin != s.Bin {
				continue
			}
			for j := c[1]; j < c[2]; j++ {
				safeRun(sp[c[0]], j)
			}
		}
	}
	if o := safeRun(s, i); o.Viol != "" {
		fmt.Println(o.Viol)
		os.Exit(3)
	}
	os.Exit(0)
}
