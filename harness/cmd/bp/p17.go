package main

import (
	"verif/harness/zk"

	. "verif/harness/core"
)

func runFailures(c *C, op randOp, share, shares int) {
	run := op.prepare(c)
	if run == nil {
		return
	}
	_, err, pan, rec := perform(c, "base", run, nil)
	if err != nil || pan != nil {
		c.Fail("%s failed with a working random source: %v %v", op.name, err, pan)
		return
	}
	total := rec.Reads
	for i := 0; i < total; i++ {
		if i%shares != share {
			continue
		}
		for mode, name := range []string{"once", "from then on", "short read"} {
			out, err, pan, r := perform(c, "base", run, func(r *Recorder) {
				r.FailAt, r.Sticky, r.Short = i, mode == 1, mode == 2
			})
			if !r.Failed {
				c.Count("failure not reached")
				continue
			}
			c.Count("failures injected")
			switch {
			case pan != nil:
				c.Eval(op.name, i, name, "aborts")
				c.Count("aborted")
			case err != nil:
				c.Eval(op.name, i, name, "error")
				c.Count("reported an error")
			default:
				c.Eval(op.name, i, name, "success")
				c.Fail("%s succeeded although read %d of %d of the random source failed (%s): output %s", op.name, i, total, name, Digest(out))
			}
		}
	}
}

var p17 = Prop{
	ID:    "P17",
	Level: "fault_enumeration",
	Rule:  "each operation is run once to count its reads of the random source, then again for every read with that read failing (once, from then on, or delivering only a part): it must return an error or abort. Distinct: operation, read, kind of failure and outcome.",
	Min:   200,
	// an abort may occur in a goroutine of the operation, where it cannot be observed
	AbortOK: true,
	Suites: []Suite{
		{"prove32", 8, 16, func(c *C) { runFailures(c, bpOp(32), c.Idx%8, 8) }},
		{"generic", 8, 16, func(c *C) { runFailures(c, genericOp(-1000, 1<<31), c.Idx%8, 8) }},
		{"others", 28, 84, func(c *C) {
			ops := []randOp{bpOp(1), bpOp(2), bpOp(4), bpOp(8), bpOp(16), setupSetOp(5), setupSetOp(1, 2, 3), setupULOp(2, 1), setupULOp(5, 3),
				proveSetOp(4, -9), proveULOp(3, 2), proveULOp(2, 4), keygenOp(), randomOp(false, theReader), randomOp(true, theReader), intervalOp(0, 50)}
			runFailures(c, ops[c.Idx%len(ops)], 0, 1)
		}},
		{"ccs08 setup", 1, 4, func(c *C) {
			runFailures(c, randOp{"ccs08.Setup", nil, 1, func(c *C) func() (any, error) {
				return func() (any, error) {
					iv := newIntervalParams(c, 0, 40)
					return iv()
				}
			}}, 0, 1)
		}},
	},
}

func newIntervalParams(c *C, a, b int64) func() (any, error) {
	return func() (any, error) {
		iv := zk.NewInterval()
		if err := iv.Setup(a, b); err != nil {
			return nil, err
		}
		return iv.Params(), nil
	}
}
