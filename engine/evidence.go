package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func (c *checker) evidence(hs []harnessRef, runs []*Run, real []finding, unconf, mism, vacuous []string, validated int, loadS float64) {
	var paths, steps, queries, sat, unsat, unknown, small, cache, asserts, obl, sched, pruned, unsup, limited, engErr, forks int64
	var solver float64
	var vq, vu, vn, vk, vs int64
	fns := map[string]bool{}
	var harn []map[string]any
	samples := []any{}
	exhaustive := true
	assumptions := map[string]bool{}
	lostAll := map[string]int64{}
	cross := []string{}
	for i, r := range runs {
		paths += r.paths.Load()
		steps += r.steps.Load()
		queries += r.stats.queries.Load()
		sat += r.stats.sat.Load()
		unsat += r.stats.unsat.Load()
		unknown += r.stats.unknown.Load()
		small += r.stats.small.Load()
		cache += r.stats.cacheHits.Load()
		asserts += r.asserts.Load()
		obl += r.stats.asserts.Load()
		sched += r.schedPaths.Load()
		pruned += r.pruned.Load()
		unsup += r.unsup.Load()
		limited += r.limited.Load()
		engErr += r.engErr.Load()
		forks += r.forks.Load()
		solver += float64(r.stats.nanos.Load()) / 1e9
		for f := range r.fnsSeen {
			fns[f] = true
		}
		for k, v := range r.lost {
			lostAll[r.harness+": "+k] += v
		}
		if r.timedOut || len(r.lost) > 0 || r.verdict.sat > 0 {
			exhaustive = false
		}
		bounds := map[string]string{}
		r.used.Range(func(k, v any) bool { bounds[k.(string)] = v.(string); return true })
		vq += r.verdict.queries
		vu += r.verdict.unsat
		vn += r.verdict.nodes
		vk += r.verdict.unknown
		vs += r.verdict.sat
		harn = append(harn, map[string]any{
			"harness": hs[i].name, "package": hs[i].rel, "paths": r.paths.Load(), "wall_s": r.wall.Seconds(), "bounds": bounds,
			"completed": !r.timedOut, "closing_verdict": r.verdict.report(), "assert_labels": r.labels, "covers": r.covers, "queue_left": len(r.queue),
		})
		for j, s := range r.samples {
			if j >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.harness, "inputs": s.Inputs, "observed": s.Obs, "schedule_choices": s.Sched})
		}
		cross = append(cross, r.cross.notes...)
	}
	for _, a := range []string{
		"bounds as listed per harness (string lengths, list sizes, number of rounds, goroutine preemptions); inputs outside them are not covered",
		"sequentially consistent interleavings at synchronisation operations and at accesses found unordered by the happens-before monitor (athenz-authorizer and gache code)",
		"fastime (coarse clock) is taken to return the exact current time; time is virtual",
		"cryptographic primitives are ideal: a signature verifies only if it was produced by the named key over exactly that content",
		"the logger (glg) has no effect besides its text",
	} {
		assumptions[a] = true
	}
	ff := make([]string, 0, len(fns))
	for f := range fns {
		ff = append(ff, f)
	}
	sort.Strings(ff)
	as := sortedKeys(assumptions)
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"technique":                     "symbolic execution of the SSA of the real code; path feasibility and assertions decided by z3; a closing query per part of the path tree asks z3 for inputs, faults and schedule choices that violate an assertion or that no explored path follows",
		"functions_encoded":             ff,
		"harnesses":                     harn,
		"paths_pruned_by_assumption":    pruned,
		"paths_unsupported":             unsup,
		"paths_over_limit":              limited,
		"engine_errors":                 engErr,
		"branch_forks":                  forks,
		"schedule_paths":                sched,
		"assertions_checked":            asserts,
		"assertion_queries":             obl,
		"solver_queries":                queries,
		"solver_sat":                    sat,
		"solver_unsat":                  unsat,
		"solver_unknown":                unknown,
		"solver_cache_hits":             cache,
		"byte_search_results":           small, // models found by search and checked by evaluation; refutations are confirmed by z3
		"solver_time_s":                 solver,
		"solver_cross_checks":           cross,
		"closing_queries":               vq,
		"closing_unsat":                 vu,
		"closing_nodes":                 vn,
		"closing_gaps":                  vs,
		"closing_parts_not_decided":     vk,
		"load_s":                        loadS,
		"incomplete":                    lostAll,
		"unconfirmed_counterexamples":   unconf,
		"native_mismatches":             mism,
		"unreached_covers":              vacuous,
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(c.t0).Seconds(), "violations": len(real)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	p := filepath.Join(c.verif, "evidence", c.prop+".json")
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, append(b, '\n'), 0o644)
}
