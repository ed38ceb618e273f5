import json
T={
"C01":"explicit-state conformance: every step of enumerated runs replayed against a reference transition system",
"C02":"explicit-state conformance: every step of enumerated runs replayed against a reference transition system",
"C03":"explicit-state conformance of the heat uptake output against the budget of the reference transition system",
"C04":"exhaustive two-run comparison: all prefixes/perturbation points of all bounded forcing words",
"C05":"exhaustive self-composition over all pairs of forcing words of a basis, and all delays, up to a bound",
"C06":"exhaustive exploration of runs to their fixed point over parameter products",
"C07":"exhaustive exploration of unit assignments with self-composition against the base unit run",
"C08":"exhaustive exploration of refused operations at every point of bounded histories",
"C09":"explicit-state exploration of all bounded operation words against an abstract parameter store",
"C10":"explicit-state exploration of all bounded operation words against an abstract run state machine",
"C11":"exhaustive exploration of driver shapes, NaN positions and operation words against a typestate model",
"C12":"exhaustive interleavings of instances (operation level) and of threads (line level, preemption bounded) under a controlled scheduler",
"C13":"exhaustive fault injection at every executed line of the implementation, with recovery compared to an untouched twin",
"C14":"exhaustive self-composition over containers, options, orders and driver representations",
"C15":"exhaustive enumeration of all subsets of a pool of timeseries against a selection model",
"C16":"exhaustive enumeration of time axes (spacing words, irregularity positions) against a classification model",
"C17":"exhaustive enumeration of missing-value masks against a verdict and trimmed reference runs",
"C18":"exhaustive enumeration of ordered scenario selections against direct runs",
"C19":"exhaustive enumeration of metadata x parameter sets x axes against a model of the expected series",
"C20":"explicit-state exploration of all bounded words of run_scenarios calls and other uses of one model",
"C21":"exhaustive enumeration of parameter sets and units in both directions against a reference equivalence",
"C22":"exhaustive exploration of runs against the closed form solution of the two-layer system, and of timestep halvings",
"C23":"exhaustive enumeration of timescale pairs, units and forms against exact rational order",
"C24":"exhaustive enumeration of arguments, units and bounded call sequences against a reference function",
"C25":"exhaustive replay of all shipped reference traces in all ways of running them",
"C26":"explicit-state exploration of all bounded operation words with a fork (copy) and all pairs of continuations, against never-copied twins",
"C27":"explicit-state exploration of all bounded words after the end of the drivers against the recorded results and new models",
"C28":"exhaustive insertion of reads and pairs of reads at every point of bounded programs, compared with the program without reads",
"C29":"exhaustive comparison of all pointwise ordered pairs of bounded forcing words",
"C30":"exhaustive self-composition over scaling laws, factors and parameter sets",
"C32":"exhaustive exploration of refused scenarios and words of refusals at every point of a model's life, against twins without refusals",
"C33":"explicit-state exploration of words of steps and assignments, each step compared with the reference transition of the parameters in force",
"C34":"explicit-state exploration of all bounded operation words against an abstract store of the accepted drivers",
"C35":"exhaustive self-composition over number types, memory layouts and parameter sets",
"C31":"exhaustive self-composition over enumerated process environments and job orders",
}
import importlib,sys
sys.path.insert(0,"/verif"); sys.path.insert(0,"/repo/src")
import warnings; warnings.simplefilter("ignore")
checks=[]
for i in range(1,36):
    pid="C%02d"%i
    m=importlib.import_module("mc.props."+pid.lower())
    b=m.BOUNDS if isinstance(m.BOUNDS,str) else "quick: %s; thorough: %s"%(m.BOUNDS.get("quick"),m.BOUNDS.get("thorough"))
    checks.append({"property":pid,"quick_cmd":"./check "+pid,"thorough_cmd":"VERIF_TIER=thorough ./check "+pid,"technique":T[pid],
      "level":getattr(m,"LEVEL","model_checking"),
      "level_note":"Holds on every behaviour of the stated bounded space, executed on the real code (no sampling). Bounds - "+b+". Assumes: "+"; ".join(m.ASSUMPTIONS)})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[],"notes":"No hooks in /repo: the checks drive the unmodified package from /repo/src. VERIF_SEED is recorded but not used, since nothing is random."},open("/verif/MANIFEST.json","w"),indent=1)
