package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sync"
)

// shardResult is what a part of a check, run in a process of its own, reports.
type shardResult struct {
	Ctx   Ctx
	Fails []finding
}

// shards runs the parts of a check in processes of their own, as many at a time
// as there are processors, and joins what they report in the order of names.
func (c *Ctx) shards(names []string, f func(name string)) {
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		f(s)
		return
	}
	exe, err := os.Executable()
	if err != nil {
		failf("cannot find the checker: %v", err)
	}
	res := make([]*shardResult, len(names))
	errs := make([]string, len(names))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, n := range names {
		i, n := i, n
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(exe, c.Prop)
			cmd.Env = append(os.Environ(), "VERIF_SHARD="+n, "GOMAXPROCS=2")
			var out, er bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &er
			err := cmd.Run()
			b := out.Bytes()
			if k := bytes.LastIndex(b, []byte("\nSHARD ")); k >= 0 {
				if debugging() {
					os.Stdout.Write(b[:k+1])
				}
				r := &shardResult{}
				if json.Unmarshal(b[k+7:], r) == nil {
					res[i] = r
					return
				}
			}
			errs[i] = fmt.Sprintf("%v %s", err, er.String())
		}()
	}
	wg.Wait()
	for i, n := range names {
		r := res[i]
		if r == nil {
			failf("the part %s of the analysis failed: %s", n, errs[i])
		}
		c.Obligations += r.Ctx.Obligations
		c.Discharged += r.Ctx.Discharged
		c.Paths += r.Ctx.Paths
		for k, v := range r.Ctx.Counts {
			c.Counts[k] += v
		}
		for k := range r.Ctx.Funcs {
			c.Funcs[k] = true
		}
		for _, s := range r.Ctx.Samples {
			c.sample(s)
		}
		c.Notes = append(c.Notes, r.Ctx.Notes...)
		for _, f := range r.Fails {
			if _, dup := c.fails[f.Key]; !dup {
				f := f
				c.fails[f.Key] = &f
				c.order = append(c.order, f.Key)
			}
		}
	}
}

// shardDone prints the result of a part.
func shardDone(c *Ctx) int {
	r := shardResult{Ctx: *c}
	for _, k := range c.order {
		r.Fails = append(r.Fails, *c.fails[k])
	}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("\nSHARD %s", b)
	return 0
}
