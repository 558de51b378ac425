package main

import (
	"fmt"
	"syscall"

	"vibe-lsm/pkg/col"
	"vibe-lsm/pkg/multicol"
	"vibe-lsm/zzverif/vfs"
)

// C13: a failing read gives an error or leaves out whole blocks, never wrong
// rows, and nothing of it stays behind.
func init() { props["C13"] = c13 }

type readFault struct {
	name string
	f    func(size int) vfs.Fault
	hard bool // the data cannot be obtained by this read
	// then, when set, happens to the read that goes on where this one ended
	then *vfs.Fault
}

var readFaults = []readFault{
	{"EIO", func(int) vfs.Fault { return vfs.Fault{Err: syscall.EIO, Partial: -1} }, true, nil},
	{"end of file", func(int) vfs.Fault { return vfs.Fault{Partial: 0} }, true, nil},
	{"short by half", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n/2)} }, false, nil},
	{"one byte", func(n int) vfs.Fault { return vfs.Fault{Partial: 1} }, false, nil},
	{"EINTR", func(int) vfs.Fault { return vfs.Fault{Err: syscall.EINTR, Partial: -1} }, false, nil},
	{"half, then EIO", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n/2)} }, true, &vfs.Fault{Err: syscall.EIO, Partial: -1}},
	{"half, then end of file", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n/2)} }, true, &vfs.Fault{Partial: 0}},
	{"all but seven bytes, then EIO", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n-7)} }, true, &vfs.Fault{Err: syscall.EIO, Partial: -1}},
	{"all but seven bytes, then end of file", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n-7)} }, true, &vfs.Fault{Partial: 0}},
	{"all but one byte, then EIO", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n-1)} }, true, &vfs.Fault{Err: syscall.EIO, Partial: -1}},
	{"all but one byte, then end of file", func(n int) vfs.Fault { return vfs.Fault{Partial: max(1, n-1)} }, true, &vfs.Fault{Partial: 0}},
}

// blockRange is where a block lies in a file.
type blockRange struct{ from, to int64 }

func blockRanges(data []byte) []blockRange {
	p, err := parse(data)
	if err != nil {
		panic(err)
	}
	var out []blockRange
	for _, e := range p.Entries {
		out = append(out, blockRange{int64(e.Off), int64(e.Off) + int64(e.Size)})
	}
	return out
}

// fquery is a query whose answer under read faults can be judged.
type fquery struct {
	name string
	// run returns the answer, or an error.
	run func(rs []*col.Reader) (string, error)
	// ref gives the answer when the blocks in skip (by file) are left out;
	// nil for queries that must be right or fail.
	ref func(skip func(file, block int) bool) string
}

func refString(a Agg) string {
	avg := 0.0
	if a.Count > 0 {
		avg = float64(a.Sum) / float64(a.Count)
	}
	return aggString(col.AggregateResult{Count: a.Count, Min: a.Min, Max: a.Max, Sum: a.Sum, Avg: avg})
}

// faultQueries are queries over two files, the second newer.
func faultQueries(files [][]Block) []fquery {
	var qs []fquery
	ids := func(bs []Block) []uint64 {
		var out []uint64
		for _, r := range rowsOf(bs) {
			out = append(out, r.ID)
		}
		return out
	}
	f0 := ids(files[0])
	if len(f0) == 0 {
		f0 = []uint64{1}
	}
	set := func(xs []uint64) map[uint64]bool {
		m := map[uint64]bool{}
		for _, x := range xs {
			m[x] = true
		}
		return m
	}
	for i := range files[0] {
		qs = append(qs, fquery{name: fmt.Sprintf("GetPairs(%d)", i), run: func(rs []*col.Reader) (string, error) {
			a, b, err := rs[0].GetPairs(uint64(i))
			return fmt.Sprint(a, b), err
		}})
	}
	qs = append(qs, fquery{name: "GetGlobalIDBitmap", run: func(rs []*col.Reader) (string, error) {
		bm, err := rs[0].GetGlobalIDBitmap()
		if err != nil {
			return "", err
		}
		return bmString(bm, nil), nil
	}}, fquery{name: "GetGlobalIDBitmap, caching", run: func(rs []*col.Reader) (string, error) {
		rs[0].EnableGlobalIDBitmapCaching()
		bm, err := rs[0].GetGlobalIDBitmap()
		if err != nil {
			return "", err
		}
		return bmString(bm, nil), nil
	}})
	type opt struct {
		name        string
		par         int
		allow, deny []uint64
		full        bool
	}
	for _, o := range []opt{
		{"full scan", 0, nil, nil, true}, {"parallel full scan", 2, nil, nil, true}, {"parallel 3 full scan", 3, nil, nil, true},
		{"allow all", 0, f0, nil, false}, {"allow all, parallel", 2, f0, nil, true}, {"allow one", 0, f0[:1], nil, false},
		{"deny one", 0, nil, f0[:1], false}, {"deny last, parallel", -3, nil, f0[len(f0)-1:], false}, {"statistics", 0, nil, nil, false},
	} {
		allow, deny := set(o.allow), set(o.deny)
		qs = append(qs, fquery{name: o.name, run: func(rs []*col.Reader) (string, error) {
			opts := col.AggregateOptions{SkipPreCalculated: o.full, Parallel: o.par}
			if o.allow != nil {
				opts.Filter = bitmapOf(o.allow...)
			}
			if o.deny != nil {
				opts.DenyFilter = bitmapOf(o.deny...)
			}
			return aggString(rs[0].AggregateWithOptions(opts)), nil
		}, ref: func(skip func(file, block int) bool) string {
			var a Agg
			for i, b := range files[0] {
				if skip(0, i) {
					continue
				}
				for _, r := range b {
					if (o.allow == nil || allow[r.ID]) && !deny[r.ID] {
						a.add(r.Val)
					}
				}
			}
			return refString(a)
		}})
	}
	for _, filter := range [][]uint64{nil, f0[:1], append(append([]uint64{}, f0...), ids(files[1])...)} {
		for _, full := range []bool{false, true} {
			fs := set(filter)
			qs = append(qs, fquery{name: fmt.Sprintf("multi filter %v full %v", filter, full), run: func(rs []*col.Reader) (string, error) {
				o := multicol.AggregateOptions{SkipPreCalculated: full}
				if filter != nil {
					o.Filter = bitmapOf(filter...)
				}
				a, err := multicol.NewMultiReader(rs).Aggregate(o)
				return aggString(a), err
			}, ref: func(skip func(file, block int) bool) string {
				var a Agg
				newer := set(ids(files[1]))
				for f := 1; f >= 0; f-- {
					for i, b := range files[f] {
						if skip(f, i) {
							continue
						}
						for _, r := range b {
							if (filter == nil || fs[r.ID]) && (f == 1 || !newer[r.ID]) {
								a.add(r.Val)
							}
						}
					}
				}
				return refString(a)
			}})
		}
	}
	return qs
}

func c13(e *Env) {
	fileSets := [][][]Block{
		{{{{1, 10}, {2, -20}}, {{3, 30}, {5, 7}}, {{9, 1}}}, {{{2, 5}, {3, 6}}, {{11, 8}}}},
		{{{{7, 1}}}, {{{7, 2}}}},
		{{family(1, 300)[:200], family(1, 300)[200:]}, {family(1, 50)}},
		{nil, {{{1, 1}}}},
		{{stepRows(300, 12)}, {stepRows(300, 28)[12:]}}, // containers of the bitmap without a gap at the end
		{{{{5, 1}}, {{6, -2}}, {{1, 4}, {9, 8}, {70000, -16}}, {{5, 32}}}, {{{6, 64}}}},
	}
	names := []string{"/vfs/a", "/vfs/b"}
	for fi, files := range fileSets {
		for _, enc := range allEnc {
			var datas [][]byte
			var ranges [][]blockRange
			prepare := func(t *T) {
				if datas == nil {
					for i := range files {
						writeBlocks(t, names[i], files[i], enc, bigBlock)
						datas = append(datas, snapshot(names[i]))
						ranges = append(ranges, blockRanges(datas[i]))
					}
				}
			}
			put := func() {
				vfs.Reset()
				for i := range datas {
					vfs.Put(names[i], datas[i])
				}
			}
			qs := faultQueries(files)
			openAll := func(t *T) []*col.Reader {
				return []*col.Reader{open(t, names[0]), open(t, names[1])}
			}
			var clean []string
			cleanAnswers := func(t *T) {
				if clean != nil {
					return
				}
				for _, q := range qs {
					put()
					rs := openAll(t)
					got, err := q.run(rs)
					if err != nil {
						t.Fail("clean", "%s: %v", q.name, err)
					}
					if q.ref != nil {
						if w := q.ref(func(int, int) bool { return false }); w != got {
							t.Fail("clean", "%s: %s, expected %s", q.name, got, w)
						}
					}
					clean = append(clean, got)
					for _, r := range rs {
						closeReader(t, r)
					}
				}
			}
			// A plan fails the reads in mask (bit 62: all later ones too).
			faulty := func(mask uint64, rest bool, k int, hits *int, record func(ino int, off int64, n int)) {
				n := 0
				contIno, contOff := -1, int64(0)
				vfs.Dev.Decide = func(_, kind int, file *vfs.File, off int64, size int) (vfs.Fault, bool) {
					if kind != vfs.OpRead {
						return vfs.Fault{Partial: -1}, false
					}
					if then := readFaults[k].then; then != nil && file.Ino == contIno && off == contOff {
						contIno = -1
						return *then, true
					}
					i := n
					n++
					if i > 5000 {
						// a retried EINTR or short read must end some time
						return vfs.Fault{Partial: -1}, false
					}
					if i < 62 && mask>>i&1 == 1 || rest && i >= 62 {
						*hits++
						if readFaults[k].hard {
							record(file.Ino, off, size)
						}
						f := readFaults[k].f(size)
						if readFaults[k].then != nil {
							contIno, contOff = file.Ino, off+int64(f.Partial)
						}
						return f, true
					}
					return vfs.Fault{Partial: -1}, false
				}
			}
			// masks of failing reads for a query issuing n reads
			masks := func(n int) (out []uint64, all bool) {
				lim := 8
				if e.Thorough {
					lim = 11
				}
				if n <= lim {
					for m := uint64(1); m < 1<<n; m++ {
						out = append(out, m)
					}
					all = true
				} else {
					for i := 0; i < n; i++ {
						out = append(out, 1<<i)
						for j := i + 1; j < n; j++ {
							out = append(out, 1<<i|1<<j)
						}
					}
				}
				for i := 0; i <= n; i++ { // everything from read i on
					out = append(out, ^uint64(0)<<i)
				}
				return
			}
			for qi := range qs {
				if !e.Case(func() string {
					return fmt.Sprintf("files %d enc=%d: failing reads during %s", fi, enc, qs[qi].name)
				}, func(t *T) {
					prepare(t)
					cleanAnswers(t)
					q := qs[qi]
					put()
					rs := openAll(t)
					c0 := vfs.Dev.Counts[vfs.OpRead]
					q.run(rs)
					n := vfs.Dev.Counts[vfs.OpRead] - c0
					for _, r := range rs {
						closeReader(t, r)
					}
					ms, all := masks(min(n, 40))
					if all {
						t.e.Count("queries with every subset of reads failing", 1)
					} else {
						t.e.Count("queries with every one and two reads failing", 1)
					}
					for k, rf := range readFaults {
						for mi, m := range ms {
							t.Sub(mi)
							rest := m>>61&1 == 1
							put()
							rs := openAll(t)
							hits := 0
							bad := map[[2]int]bool{}
							faulty(m, rest, k, &hits, func(ino int, off int64, size int) {
								f := 0
								if vfs.Find(names[1]).Ino == ino {
									f = 1
								}
								for b, rg := range ranges[f] {
									if off < rg.to && off+int64(size) > rg.from {
										bad[[2]int{f, b}] = true
									}
								}
							})
							got, err := q.run(rs)
							vfs.Dev.Decide = nil
							desc := func() string {
								return fmt.Sprintf("%s on reads %b of %d (and all later: %v)", rf.name, m, n, rest)
							}
							t.Op(2)
							t.Trace()
							t.State(hashStr(fmt.Sprint(fi, enc, qi, k, m)))
							if hits > 0 {
								t.e.Count("executions with a failing read", 1)
							}
							switch {
							case err != nil:
								if hits == 0 || !rf.hard && !(k == 1) {
									t.Fail("spurious", "an error without a failed read: %v: %s", err, desc())
								}
							case got == clean[qi]:
							case q.ref == nil || !rf.hard:
								t.Fail("wrong", "got %s, expected %s or an error: %s", got, clean[qi], desc())
							default:
								// any set of affected blocks may be missing
								var keys [][2]int
								for b := range bad {
									keys = append(keys, b)
								}
								ok := false
								for s := 0; s < 1<<len(keys) && !ok; s++ {
									skip := map[[2]int]bool{}
									for i, b := range keys {
										if s>>i&1 == 1 {
											skip[b] = true
										}
									}
									ok = q.ref(func(f, b int) bool { return skip[[2]int{f, b}] }) == got
								}
								if !ok {
									t.Fail("wrong", "got %s, which is not the aggregate of whole blocks without some of those that failed %v: %s", got, keys, desc())
								}
							}
							// healed
							again, err := q.run(rs)
							if err != nil || again != clean[qi] {
								t.Fail("sticky", "after the failure is over the same query gives %s, %v, expected %s: %s", again, err, clean[qi], desc())
							}
							if mi%8 == 0 || e.Thorough {
								for i, o := range qs {
									if a, err := o.run(rs); err != nil || a != clean[i] {
										t.Fail("sticky", "after the failure is over, %s gives %s, %v, expected %s: %s", o.name, a, err, clean[i], desc())
									}
									t.Op(1)
								}
							}
							for _, r := range rs {
								closeReader(t, r)
							}
						}
					}
				}) {
					return
				}
			}
			// Opening.
			if !e.Case(func() string { return fmt.Sprintf("files %d enc=%d: failing operations while opening", fi, enc) }, func(t *T) {
				prepare(t)
				cleanAnswers(t)
				put()
				closeReader(t, open(t, names[0]))
				n := vfs.Dev.OpN
				for k, rf := range readFaults {
					for m := uint64(1); m < 1<<min(n, 9); m++ {
						t.Sub(int(m))
						put()
						i := 0
						hits := 0
						contOff := int64(-1)
						vfs.Dev.Decide = func(_, kind int, file *vfs.File, off int64, size int) (vfs.Fault, bool) {
							if rf.then != nil && kind == vfs.OpRead && off == contOff {
								contOff = -1
								return *rf.then, true
							}
							j := i
							i++
							if j > 60 || m>>j&1 == 0 || kind == vfs.OpClose {
								return vfs.Fault{Partial: -1}, false
							}
							f := rf.f(size)
							if kind != vfs.OpRead {
								f.Partial = -1
								if f.Err == 0 || f.Err == syscall.EINTR && kind == vfs.OpSeek { // never happens
									return f, false
								}
							}
							hits++
							if rf.then != nil && kind == vfs.OpRead {
								contOff = off + int64(f.Partial)
							}
							return f, true
						}
						r, err := col.NewReader(names[0])
						vfs.Dev.Decide = nil
						t.Op(1)
						t.Trace()
						t.State(hashStr(fmt.Sprint(fi, enc, "open", k, m)))
						if err != nil {
							if hits == 0 || !rf.hard {
								t.Fail("spurious", "NewReader fails without a failed operation: %v (%s, operations %b)", err, rf.name, m)
							}
							if vfs.Dev.OpenN != 0 {
								t.Fail("leak", "NewReader fails and leaves the file open (%s, operations %b)", rf.name, m)
							}
							continue
						}
						rs := []*col.Reader{r, open(t, names[1])}
						for i, q := range qs {
							if a, err := q.run(rs); err != nil || a != clean[i] {
								t.Fail("wrong", "the file opens but %s gives %s, %v, expected %s (%s, operations %b)", q.name, a, err, clean[i], rf.name, m)
							}
							t.Op(1)
						}
						closeReader(t, r)
						closeReader(t, rs[1])
					}
				}
			}) {
				return
			}
		}
	}
	e.Bound("%d pairs of files x encodings x every query x %d kinds of failing read on every subset of its reads (more than 8 reads: every one and two of them) and on all reads from some point on; then the same query and the others again without failures", len(fileSets), len(readFaults))
	e.Bound("every subset of the operations of opening a file failing in each way")
}

func stepRows(step uint64, n int) Block {
	b := make(Block, n)
	for i := range b {
		b[i] = Row{step * uint64(i+1), -int64(i) * 1000}
	}
	return b
}
