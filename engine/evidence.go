package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

type evidence struct {
	c        *config
	loadSecs float64
	res      []*HarnessResult
	docs     []*harnessInfo
	exs      []*Explorer
	viol     []any
	funcs    []string
	solverS  float64
}

type replayData struct {
	Property string     `json:"property"`
	Harness  string     `json:"harness"`
	Tier     string     `json:"tier"`
	Kind     string     `json:"kind"`
	Msg      string     `json:"message"`
	Native   string     `json:"native_result"`
	Trace    string     `json:"trace"`
	Input    []InputVal `json:"input"`
	Cmd      string     `json:"command"`
}

func (ev *evidence) add(h *harnessInfo, r *HarnessResult, ex *Explorer) {
	ev.res = append(ev.res, r)
	ev.docs = append(ev.docs, h)
	ev.exs = append(ev.exs, ex)
}

func (ev *evidence) violation(f *Finding) string {
	dir := filepath.Join(ev.c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", ev.c.prop, f.Harness, len(ev.viol)))
	d := replayData{ev.c.prop, f.Harness, ev.c.tier, f.Kind, f.Msg, f.Native, f.Trace, f.Input, "bash /verif/check.sh replay " + p}
	b, _ := json.MarshalIndent(d, "", " ")
	os.WriteFile(p, b, 0o644)
	ev.viol = append(ev.viol, map[string]any{"harness": f.Harness, "kind": f.Kind, "message": f.Msg, "native": f.Native, "replay": p})
	return p
}

func (ev *evidence) write(wall float64, kn []*known) {
	var paths, branches, asserts, queries, compared, trivial, unknown, cross int64
	complete := []string{}
	limited := []string{}
	var samples []any
	var harn []any
	for i, r := range ev.res {
		for k, v := range r.Paths {
			if k != "assume" {
				paths += v
			}
		}
		branches += r.Branches
		asserts += r.Asserts
		trivial += r.Trivial
		queries += r.AssertQ
		compared += int64(r.Compared)
		unknown += r.Unknown
		cross += r.CrossN
		if r.Complete {
			complete = append(complete, r.Name)
		} else {
			limited = append(limited, r.Name)
		}
		harn = append(harn, map[string]any{"harness": r.Name, "what": ev.docs[i].doc, "result": r})
		for j, s := range ev.exs[i].samples {
			if j >= 2 {
				break
			}
			in := s.Input
			if len(in) > 64 {
				in = in[:64]
			}
			samples = append(samples, map[string]any{"harness": r.Name, "input": in, "observed": s.Obs})
		}
		if len(ev.exs[i].samples) == 0 {
			samples = append(samples, map[string]any{"harness": r.Name, "input": nil})
		}
	}
	known := []any{}
	for _, k := range kn {
		known = append(known, map[string]any{"what": k.What, "reproduced_in_this_run": k.hit})
	}
	viol := ev.viol
	if viol == nil {
		viol = []any{}
	}
	var solverSecs float64
	var nq int64
	for _, ex := range ev.exs {
		solverSecs += ex.solverSecs
		nq += ex.solverQ
	}
	out := map[string]any{
		"property": ev.c.prop,
		"tier":     ev.c.tier,
		"seed":     ev.c.seed,
		"level":    "model_checking",
		"coverage": map[string]any{
			"states":                            paths,
			"transitions":                       branches,
			"traces_validated_against_impl":     compared,
			"samples":                           samples,
			"functions_encoded":                 ev.funcs,
			"harnesses":                         harn,
			"harnesses_exhausted_within_bounds": complete,
			"harnesses_time_limited":            limited,
			"assertion_queries":                 queries,
			"assertions_proved_by_solver":       asserts,
			"assertions_constant_on_path":       trivial,
			"solver_queries":                    nq,
			"solver_seconds":                    solverSecs,
			"unknown_answers":                   unknown,
			"cross_checked_with_second_solver":  cross,
			"load_and_encode_seconds":           ev.loadSecs,
		},
		"wall_s": wall,
		"assumptions": []string{
			"states = completed symbolic execution paths of the real code (SSA regenerated from /repo on this run); transitions = symbolic branch decisions; each path stands for every input satisfying its path condition",
			"bounds are those drawn by each harness (see DESIGN.md and the harness descriptions); a time-limited harness covers only the explored paths",
			"library functions replaced by models: see DESIGN.md, section 'trusted base'",
		},
		"violations":     viol,
		"known_findings": known,
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(ev.c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(ev.c.verif, "evidence", ev.c.prop+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
}
