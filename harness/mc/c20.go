package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// C20: the vibecol command stores and shows exactly the given pairs.
func init() { props["C20"] = c20 }

// command runs a built command of the repository in the shard's scratch
// directory.
func command(t *T, bin string, args ...string) (out string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), bin), args...)
	c.Dir = os.Getenv("VERIF_SCRATCH")
	var buf bytes.Buffer
	c.Stdout, c.Stderr = &buf, &buf
	err := c.Run()
	t.Op(1)
	t.Beat()
	if err == nil {
		return buf.String(), 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if strings.Contains(buf.String(), "goroutine 1 [") {
			t.Fail("panic", "%s %q panics:\n%s", bin, args, buf.String())
		}
		if ee.ExitCode() < 0 {
			t.Fail("killed", "%s %q: %v\n%s", bin, args, err, buf.String())
		}
		return buf.String(), ee.ExitCode()
	}
	panic(err) // the check cannot run commands
}

func scratch(name string) string { return filepath.Join(os.Getenv("VERIF_SCRATCH"), name) }

var pairLine = regexp.MustCompile(`(?m)^(\d+)\t(-?\d+)$`)

// dumpRows are the rows a dump shows.
func dumpRows(t *T, out string) Block {
	var b Block
	for _, m := range pairLine.FindAllStringSubmatch(out, -1) {
		id, err := strconv.ParseUint(m[1], 10, 64)
		v, err2 := strconv.ParseInt(m[2], 10, 64)
		if err != nil || err2 != nil {
			t.Fail("dump", "line %q is not a pair", m[0])
		}
		b = append(b, Row{id, v})
	}
	return b
}

// printedAgg compares printed statistics with the reference.
func printedAgg(t *T, what, out string, want Agg) {
	get := func(label string) string {
		m := regexp.MustCompile(`(?m)^` + label + `: (.*)$`).FindStringSubmatch(out)
		if m == nil {
			t.Fail("agg", "%s: no line %q in\n%s", what, label, out)
		}
		return strings.TrimSpace(m[1])
	}
	check := func(label, want string) {
		if got := get(label); got != want {
			t.Fail("agg", "%s: %s is %s, expected %s", what, label, got, want)
		}
	}
	check("Count", fmt.Sprint(want.Count))
	check("Sum", fmt.Sprint(want.Sum))
	if want.Count > 0 {
		check("Min", fmt.Sprint(want.Min))
		check("Max", fmt.Sprint(want.Max))
		if !want.Overflow {
			got, err := strconv.ParseFloat(get("Average"), 64)
			avg := float64(want.Sum) / float64(want.Count)
			if err != nil || math.Abs(got-avg) > 0.005000001+1e-9*math.Abs(avg) {
				t.Fail("agg", "%s: average is %s, expected %v", what, get("Average"), avg)
			}
		}
	}
}

func sameRows(a, b Block) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fullDevice makes "full" a name for a device without space.
func fullDevice(t *T) {
	os.Remove(scratch("full"))
	if err := os.Symlink("/dev/full", scratch("full")); err != nil {
		panic(err)
	}
}

// fileRows reads a file with the independent decoder.
func fileRows(path string) (Block, error) {
	if st, err := os.Stat(path); err != nil || !st.Mode().IsRegular() {
		return nil, fmt.Errorf("not a regular file")
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	p, err := parse(data)
	if err != nil {
		return nil, err
	}
	var rows Block
	for _, e := range p.Entries {
		if e.RowsErr != nil {
			return nil, e.RowsErr
		}
		rows = append(rows, e.Rows...)
	}
	return rows, nil
}

func c20(e *Env) {
	list := func(b Block) (ids, vals string) {
		for i, r := range b {
			if i > 0 {
				ids += ","
				vals += ","
			}
			ids += fmt.Sprint(r.ID)
			vals += fmt.Sprint(r.Val)
		}
		return
	}
	show := func(t *T, f string, rows Block, blocks int) {
		out, code := command(t, "vibecol", "read", "-f", f, "-dump", "-agg")
		if code != 0 {
			t.Fail("read", "read ends with status %d:\n%s", code, out)
		}
		if got := dumpRows(t, out); !sameRows(got, rows) {
			t.Fail("read", "the dump shows %s, expected %s\n%s", fmtBlocks([]Block{got}), fmtBlocks([]Block{rows}), out)
		}
		printedAgg(t, "read -dump -agg", out, refAgg(rows, nil))
		if blocks >= 0 && !strings.Contains(out, fmt.Sprintf("Blocks: %d\n", blocks)) {
			t.Fail("read", "expected %d blocks:\n%s", blocks, out)
		}
	}
	exact := func(b Block, form int) bool {
		return e.Case(func() string { return fmt.Sprintf("write %s, form %d", fmtBlocks([]Block{b}), form) }, func(t *T) {
			f := scratch("f.col")
			os.Remove(f)
			ids, vals := list(b)
			args := []string{"write", "-o", f, "-ids", ids, "-values", vals}
			switch form {
			case 1:
				args = []string{"write", "--values=" + vals, "--ids=" + ids, "--o=" + f}
			case 2:
				args = []string{"write", "-ids", strings.ReplaceAll(ids, ",", " , "), "-values", " " + strings.ReplaceAll(vals, ",", ",\t") + " ", "-o", f}
			case 3: // over a longer file
				os.WriteFile(f, encodeFile([]Block{family(1, 700), family(2, 300)}, 7, 4096), 0644)
			case 4: // over something that is not a file of this kind
				os.WriteFile(f, bytes.Repeat([]byte("VIBE"), 5000), 0644)
			}
			out, code := command(t, "vibecol", args...)
			rows, err := fileRows(f)
			t.Trace()
			t.State(hashStr(ids + "/" + vals))
			if code != 0 {
				if err == nil && form < 3 {
					t.Fail("status", "the command fails (%d) and leaves a file that opens: %s", code, out)
				}
				if len(b) <= 1000 {
					t.Fail("status", "the command fails (%d): %s", code, out)
				}
				t.e.Count("too many pairs for one block, refused", 1)
				return
			}
			if err != nil || !sameRows(rows, b) {
				t.Fail("file", "the command succeeds and the file holds %s, %v", fmtBlocks([]Block{rows}), err)
			}
			show(t, f, b, -1)
			// Each part alone.
			out, code = command(t, "vibecol", "read", "-f", f, "-dump")
			if code != 0 || !sameRows(dumpRows(t, out), b) || strings.Contains(out, "Count:") {
				t.Fail("read", "read -dump: status %d\n%s", code, out)
			}
			out, code = command(t, "vibecol", "read", "--agg", "--f="+f)
			if code != 0 || len(dumpRows(t, out)) != 0 {
				t.Fail("read", "read -agg: status %d\n%s", code, out)
			}
			printedAgg(t, "read -agg", out, refAgg(b, nil))
			if out, code = command(t, "vibecol", "read", "-f", f); code != 0 || len(dumpRows(t, out)) != 0 {
				t.Fail("read", "read without an operation: status %d\n%s", code, out)
			}
			if again, err := fileRows(f); err != nil || !sameRows(again, b) {
				t.Fail("file", "reading changes the file: %v", err)
			}
		})
	}
	for _, id := range idAlpha {
		for _, v := range valAlpha {
			if !exact(Block{{id, v}}, int(id+uint64(v))&3) {
				return
			}
		}
	}
	k := 5
	if e.Thorough {
		k = 9
	}
	ids := []uint64{1, 0, math.MaxUint64, 1 << 32, 77, 1<<63 - 1, 1 << 63, 65535, 65536}[:k]
	vals := []int64{-1, math.MinInt64, math.MaxInt64, 0, 1000, math.MinInt64 + 1, 63, 64, -65}[:k]
	n := 0
	if !seqs(4, k, func(s []int) bool {
		n++
		return exact(Block{{ids[s[0]], vals[s[1]]}, {ids[s[2]], vals[s[3]]}}, n%5)
	}) {
		return
	}
	if !seqs(3, 3, func(s []int) bool {
		n++
		return exact(Block{{uint64(3 - s[0]), int64(s[2])}, {uint64(s[1]), -5}, {uint64(s[2] * 7), 6}}, n%5)
	}) {
		return
	}
	// Repeated pairs, IDs and values.
	rep := Block{{7, 5}, {7, -5}, {2, 5}}
	for n := 2; n <= 4; n++ {
		if !seqs(n, len(rep), func(s []int) bool {
			b := make(Block, n)
			x := 0
			for i, k := range s {
				b[i] = rep[k]
				x += k
			}
			return exact(b, x%5)
		}) {
			return
		}
	}
	for _, n := range []int{5, 100, 300} {
		for d := uint64(1); d <= 2; d++ {
			b := make(Block, n)
			for i := range b {
				b[i] = Row{uint64(i) / 2 * (d - 1), int64(i / 3)}
			}
			if !exact(b, 0) {
				return
			}
		}
	}
	e.Bound("every sequence of 2..4 out of 3 pairs with equal IDs and values, up to 300 repeated pairs")
	for _, n := range []int{4, 10, 100, 245, 246, 247, 250, 251, 252, 253, 254, 255, 256, 257, 502, 503, 504, 760, 1000, 1013, 1014, 1015, 1016, 1017, 1018, 1023, 1024, 1025, 2000, 3000} {
		for _, kind := range []int{0, 2, 3, 5} {
			if !exact(family(kind, n), 3*(n&1)) {
				return
			}
		}
	}
	e.Bound("all single pairs over %d IDs and %d values, all two pairs over %d IDs and values, 27 triples, 30 sizes up to 3000 pairs in 4 shapes; 5 ways to give them (flag forms, blanks, over existing files); read with every combination of operations", len(idAlpha), len(valAlpha), k)

	// Files of any origin.
	for _, enc := range allEnc {
		for i, bs := range [][]Block{nil, {family(0, 1)}, {family(1, 3), family(2, 2), family(4, 5)}, {family(5, 600), family(6, 300)}, family2(70), family2(256), family2(257), family2(1030)} {
			if !e.Case(func() string { return fmt.Sprintf("read a file, enc=%d %s", enc, fmtBlocks(bs)) }, func(t *T) {
				f := scratch("g.col")
				os.WriteFile(f, encodeFile(bs, enc, 4096), 0644)
				show(t, f, rowsOf(bs), len(bs))
				t.Trace()
				t.State(hashStr(fmt.Sprint("file", enc, i)))
			}) {
				return
			}
		}
	}
	e.Bound("reading 8 files of up to 1030 blocks x 8 encodings built by an independent encoder")

	// Arguments that must be refused.
	bad := [][2]string{{"", ""}, {"1", ""}, {"", "1"}, {"1,2", "1"}, {"1", "1,2"}, {"1,", "1,2"}, {"1,2", "1,"}, {",1", "2,1"}, {"1,,2", "1,2,3"}, {"a", "1"}, {"1", "a"},
		{"-1", "1"}, {"1.5", "1"}, {"1", "1.5"}, {"18446744073709551616", "1"}, {"1", "9223372036854775808"}, {"1", "-9223372036854775809"}, {"1e3", "1"}, {"1", "1e3"},
		{"1 2", "1,2"}, {"1;2", "1;2"}, {"1", "--1"}, {" ", "1"}, {"1", " "}, {"1,2,x", "1,2,3"}, {"1,2,3", "1,2,x"}, {"0x10", "1"}, {"1", "0x10"}, {"1", "NaN"}, {"１", "1"}, {"1\x00", "1"}}
	for _, b := range bad {
		for existing := 0; existing < 2; existing++ {
			if strings.ContainsRune(b[0], 0) {
				continue // cannot be passed to a process
			}
			if !e.Case(func() string {
				return fmt.Sprintf("malformed -ids %q -values %q, existing file %d", b[0], b[1], existing)
			}, func(t *T) {
				f := scratch("h.col")
				os.Remove(f)
				var old []byte
				if existing == 1 {
					old = encodeFile([]Block{family(0, 5)}, 0, 4096)
					os.WriteFile(f, old, 0644)
				}
				out, code := command(t, "vibecol", "write", "-o", f, "-ids", b[0], "-values", b[1])
				if code == 0 {
					t.Fail("status", "malformed arguments are accepted: %s", out)
				}
				now, err := os.ReadFile(f)
				if existing == 0 && err == nil {
					if _, err := fileRows(f); err == nil {
						t.Fail("file", "malformed arguments leave a file that opens")
					}
				}
				if existing == 1 && !bytes.Equal(old, now) {
					t.Fail("file", "malformed arguments change the existing file")
				}
				t.Trace()
				t.State(hashStr(fmt.Sprint("bad", b, existing)))
			}) {
				return
			}
		}
	}
	for _, args := range [][]string{{}, {"foo"}, {"write"}, {"write", "-ids", "1"}, {"write", "-values", "1"}, {"write", "-x"}, {"read", "-x"}, {"read", "-f", "no-such-file"}, {"read", "-f", "no-such-file", "-dump"},
		{"read", "-f", "no-such-file", "-agg"}, {"read", "-f", "."}, {"read", "-f", "/dev/null", "-dump"}, {"read", "-f", "no/such/file", "-agg"}, {"write", "-o", "no/such/dir/f", "-ids", "1", "-values", "2"},
		{"write", "-o", ".", "-ids", "1", "-values", "2"}, {"write", "-o", "full", "-ids", "1", "-values", "2"}, {"Write", "-ids", "1", "-values", "2"}} {
		if !e.Case(func() string { return fmt.Sprintf("arguments %q", args) }, func(t *T) {
			fullDevice(t)
			out, code := command(t, "vibecol", args...)
			if rows, err := fileRows(scratch("full")); code == 0 && args[0] == "write" && err == nil && sameRows(rows, Block{{1, 2}}) {
				return // the command replaced the name by a file
			}
			if code == 0 {
				t.Fail("status", "status 0:\n%s", out)
			}
			if len(dumpRows(t, out)) != 0 {
				t.Fail("status", "pairs are shown:\n%s", out)
			}
			t.Trace()
			t.State(hashStr(fmt.Sprint("args", args)))
		}) {
			return
		}
	}
	e.Bound("%d malformed pairs of lists with and without an existing file, 17 other wrong command lines", len(bad)-1)

	// Files cut short or damaged.
	bs := []Block{family(0, 3), family(1, 4)}
	data := encodeFile(bs, 3, 4096)
	p, _ := parse(data)
	var cuts []int
	for n := 0; n < len(data); n++ {
		if n < 66 && n%4 == 0 || n > p.FooterOff-3 && n < len(data) && n%3 == 0 || n%1024 == 0 || n == len(data)-1 {
			cuts = append(cuts, n)
		}
	}
	for _, n := range cuts {
		if !e.Case(func() string { return fmt.Sprintf("a file cut to %d of %d bytes", n, len(data)) }, func(t *T) {
			f := scratch("i.col")
			os.WriteFile(f, data[:n], 0644)
			out, code := command(t, "vibecol", "read", "-f", f, "-dump", "-agg")
			if code == 0 || len(dumpRows(t, out)) != 0 {
				t.Fail("status", "status %d:\n%s", code, out)
			}
			t.Trace()
			t.State(hashStr(fmt.Sprint("cut", n)))
		}) {
			return
		}
	}
	for blk := 0; blk < 2; blk++ {
		if !e.Case(func() string { return fmt.Sprintf("a file whose block %d is damaged", blk) }, func(t *T) {
			d := append([]byte(nil), data...)
			off := int(p.Entries[blk].Off)
			for _, x := range []int{off + 64, off + 68, off + 72, off + 76} {
				le.PutUint32(d[x:], 0xfffffff0)
			}
			f := scratch("j.col")
			os.WriteFile(f, d, 0644)
			out, code := command(t, "vibecol", "read", "-f", f, "-dump")
			if code == 0 {
				t.Fail("status", "a block that cannot be read is passed over in silence:\n%s", out)
			}
			var before Block
			for _, b := range bs[:blk] {
				before = append(before, b...)
			}
			if got := dumpRows(t, out); len(got) > 0 && !sameRows(got, before) {
				t.Fail("dump", "rows are invented:\n%s", out)
			}
			t.Trace()
			t.State(hashStr(fmt.Sprint("damage", blk)))
		}) {
			return
		}
	}
	e.Bound("%d lengths of a truncated file, each block damaged", len(cuts))
}
