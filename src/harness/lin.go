package main

// A small linearizability checker (Wing & Gong with memoisation).

type linOp struct {
	call, ret uint64
	apply     func(state string) []string // resulting states; none: not allowed here
}

// linearizable: 1 yes, 0 no, -1 gave up.
func linearizable(ops []linOp, init string, budget int) int {
	n := len(ops)
	if n > 62 {
		return -1
	}
	type key struct {
		done uint64
		st   string
	}
	seen := map[key]bool{}
	full := uint64(1)<<uint(n) - 1
	steps := 0
	var rec func(done uint64, st string) int
	rec = func(done uint64, st string) int {
		if done == full {
			return 1
		}
		k := key{done, st}
		if seen[k] {
			return 0
		}
		seen[k] = true
		steps++
		if steps > budget {
			return -1
		}
		minRet := ^uint64(0)
		for i := 0; i < n; i++ {
			if done&(1<<uint(i)) == 0 && ops[i].ret < minRet {
				minRet = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if done&(1<<uint(i)) != 0 || ops[i].call > minRet {
				continue
			}
			for _, ns := range ops[i].apply(st) {
				if x := rec(done|1<<uint(i), ns); x != 0 {
					return x
				}
			}
		}
		return 0
	}
	return rec(0, init)
}
