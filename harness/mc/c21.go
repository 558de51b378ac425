package main

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// C21: imported load-test data has the requested number of rows, is the same
// for the same seed, and aggregates the same in every mode.
func init() { props["C21"] = c21 }

func c21(e *Env) {
	modes := func(t *T, f string, rows Block, blocks int) {
		want := refAgg(rows, nil)
		for _, skip := range []string{"-skip-cache=false", "-skip-cache=true", ""} {
			for _, par := range []string{"", "0", "1", "2", "3", "8", "-1", "-4", "100000"} {
				if !e.Thorough && skip == "" && par != "" && par != "2" {
					continue
				}
				args := []string{"aggregate", "-file", f}
				if skip != "" {
					args = append(args, skip)
				}
				if par != "" {
					args = append(args, "-parallel", par)
				}
				out, code := command(t, "loadtest", args...)
				if code != 0 {
					t.Fail("status", "%q ends with status %d\n%s", args, code, out)
				}
				printedAgg(t, fmt.Sprint(args), out, want)
				m := regexp.MustCompile(`Full scan: (\d+) values`).FindStringSubmatch(out)
				if m == nil || m[1] != strconv.Itoa(len(rows)) {
					t.Fail("scan", "%q: full scan does not show %d values:\n%s", args, len(rows), out)
				}
				if !strings.Contains(out, fmt.Sprintf("Block count: %d\n", blocks)) {
					t.Fail("blocks", "%q: expected %d blocks:\n%s", args, blocks, out)
				}
				t.Trace()
			}
		}
	}
	imp := func(n, blockSize int, seed, maxValue int64, maxID uint64) bool {
		return e.Case(func() string {
			return fmt.Sprintf("import -n %d -block-size %d -seed %d -max-value %d -max-id %d", n, blockSize, seed, maxValue, maxID)
		}, func(t *T) {
			var first []byte
			for round := 0; round < 2; round++ {
				f := scratch(fmt.Sprintf("l%d.col", round))
				os.Remove(f)
				if round == 1 {
					if seed%2 == 0 { // the old file is replaced
						os.WriteFile(f, encodeFile([]Block{family(1, 70000)}, 0, 4096), 0644)
					} else { // directories are created
						os.RemoveAll(scratch("d1"))
						f = scratch("d1/d2/l.col")
					}
				}
				out, code := command(t, "loadtest", "import", "-n", fmt.Sprint(n), "-block-size", fmt.Sprint(blockSize), "-file", f,
					"-seed", fmt.Sprint(seed), "-max-value", fmt.Sprint(maxValue), "-max-id", fmt.Sprint(maxID))
				if code != 0 {
					t.Fail("status", "import ends with status %d\n%s", code, out)
				}
				for _, l := range []string{"Total values: %d\n", "Total items written: %d\n"} {
					if l = fmt.Sprintf(l, n); !strings.Contains(out, l) {
						t.Fail("report", "expected %q:\n%s", l, out)
					}
				}
				data, err := os.ReadFile(f)
				if err != nil {
					t.Fail("file", "%v", err)
				}
				p, err := parse(data)
				if err != nil {
					t.Fail("file", "the imported file: %v", err)
				}
				var rows Block
				var bs []Block
				for i, en := range p.Entries {
					if en.RowsErr != nil {
						t.Fail("file", "block %d: %v", i, en.RowsErr)
					}
					rows = append(rows, en.Rows...)
					bs = append(bs, en.Rows)
					for j := 1; j < len(en.Rows); j++ {
						if en.Rows[j].ID < en.Rows[j-1].ID {
							t.Fail("order", "block %d is not sorted", i)
						}
					}
				}
				if len(rows) != n {
					t.Fail("rows", "the file holds %d rows, expected %d", len(rows), n)
				}
				if p.Enc != 7 || p.Target != uint32(blockSize) {
					t.Fail("header", "encoding %d, block size target %d", p.Enc, p.Target)
				}
				if d := conforms(data, bs, p.Enc, p.Target); d != "" {
					t.Fail("format", "%s", d)
				}
				data = []byte(maskTime(data))
				if round == 0 {
					first = data
					t.State(hash64(data))
					modes(t, f, rows, len(bs))
				} else if !bytes.Equal(first, data) {
					t.Fail("seed", "the same seed gives another file")
				}
				os.Remove(f)
			}
		})
	}
	type scope struct {
		ns, sizes []int
		maxVal    []int64
		maxID     []uint64
		seeds     []int64
	}
	scopes := []scope{
		{[]int{0, 1, 2, 3}, []int{1, 10000}, []int64{20, 1000000}, []uint64{1, 20000000}, []int64{1, 2}},
		{[]int{999, 1000, 1001, 9999, 10000, 10001}, []int{4096, 10000, 65536}, []int64{1000000}, []uint64{20000000}, []int64{3}},
		{[]int{20000, 20001}, []int{10000, 30000}, []int64{100}, []uint64{1 << 40}, []int64{4, 0}},
		{[]int{10999, 11000}, []int{8192}, []int64{1 << 40}, []uint64{100}, []int64{-5}},
	}
	if e.Thorough {
		scopes = append(scopes, scope{[]int{0, 1, 5, 500, 999, 1000, 1001, 1999, 2000, 10000, 10001, 19999, 30001}, []int{1, 4096, 4097, 8192, 10000, 20000, 65536, 131072}, []int64{10, 1000000, 1 << 50}, []uint64{1, 1000, 1 << 62}, []int64{1, 2}})
	}
	for _, s := range scopes {
		for _, n := range s.ns {
			for _, size := range s.sizes {
				for _, mv := range s.maxVal {
					for _, mi := range s.maxID {
						for _, seed := range s.seeds {
							if size == 1 && n > 100 {
								continue // a page per row
							}
							if !imp(n, size, seed, mv, mi) {
								return
							}
						}
					}
				}
			}
		}
	}
	e.Bound("imports of up to %d rows around the batch (10000) and flush (1000) limits x block sizes x value and ID limits x seeds, each twice, aggregated in 20 modes or more", 30001)
	for i, bs := range [][]Block{nil, {family(2, 3)}, {{{1, -5}, {2, -9}}, {{3, -1}}, {{4, -7}, {5, -6}}}, family2(9), {family(0, 300), family(1, 300), family(2, 4)}} {
		for _, enc := range allEnc {
			if !e.Thorough && enc%2 == 0 && i > 2 {
				continue
			}
			if !e.Case(func() string { return fmt.Sprintf("aggregate a file, enc=%d %s", enc, fmtBlocks(bs)) }, func(t *T) {
				f := scratch("k.col")
				os.WriteFile(f, encodeFile(bs, enc, 4096), 0644)
				modes(t, f, rowsOf(bs), len(bs))
				t.State(hashStr(fmt.Sprint("file", enc, i)))
			}) {
				return
			}
		}
	}
	e.Bound("aggregating 5 files x encodings built by an independent encoder, in 20 modes or more")
	for _, args := range [][]string{{}, {"foo"}, {"aggregate", "-file", "no-such-file"}, {"aggregate", "-file", "/dev/null"}, {"aggregate", "-file", "."}, {"import", "-n", "x"}, {"import", "-x"}, {"aggregate", "-parallel", "x"},
		{"import", "-n", "5", "-file", "full"}, {"import", "-n", "5", "-file", "regular/x"}, {"import", "-n", "5", "-file", "."}} {
		if !e.Case(func() string { return fmt.Sprintf("arguments %q", args) }, func(t *T) {
			fullDevice(t)
			os.WriteFile(scratch("regular"), []byte("x"), 0644)
			out, code := command(t, "loadtest", args...)
			if rows, err := fileRows(scratch("full")); code == 0 && err == nil && len(rows) == 5 {
				return // the command replaced the name by a file
			}
			if code == 0 {
				t.Fail("status", "status 0:\n%s", out)
			}
			t.Trace()
			t.State(hashStr(fmt.Sprint("args", args)))
		}) {
			return
		}
	}
	e.Bound("11 command lines that must fail")
}
