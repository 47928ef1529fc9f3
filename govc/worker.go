package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"time"
)

func runWorker(spec, target string, bud time.Duration, queries string) *FnReport {
	args := []string{"-spec", spec, "-only", target, "-repo", repoDir, "-out", "-"}
	if bud > 0 {
		args = append(args, "-budget", bud.String())
	}
	if queries != "" {
		args = append(args, "-queries", queries)
	}
	cmd := exec.Command(os.Args[0], args...)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	cmd.Run()
	var r struct{ Functions []*FnReport }
	if err := json.Unmarshal(out.Bytes(), &r); err != nil || len(r.Functions) != 1 {
		why := er.String()
		if len(why) > 400 {
			why = why[:400]
		}
		return &FnReport{Contract: target, Status: "unsupported", Why: "worker failed: " + why}
	}
	return r.Functions[0]
}
