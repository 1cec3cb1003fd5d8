"""Writes the 'fixed' part of KNOWN_FINDINGS.json from /repo's fix commits."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
  "changed fid_goal": "C03", "missing section": "C18", "unitarity checking asked for": "C19", "amplitude files were reported": "C07", "a deprecated scale factor": "C14",
  "its documented default": "C14",
  "TD_APPROX": "C14", "stayed open": "C17", "refused": "C18", "GRAPE": "C16", "printed": "C17", "symplectic omega follows": "C15", "default scale factor follows": "C15",
 "phase_option SU raised": "C01", "trace difference fidelity of kets": "C01",
 "order of the operators": "C01", "augmented matrix": "C01",
 "symplectic dynamics with memory": "C01", "onwd_evo returned": "C01",
 "onwd_evo and onto_evo dimensions": "C01", "onto_evo_target": "C01",
 "DEBUG_INTENSE": "C05", "unitarity_check_level": "C05",
 "ctrl_amps shared": "C01", "number of iterations in the stats": "C04",
 "termination reason of BFGS": "C03", "changed termination conditions": "C09",
 "optimizer bounds attribute": "C08", "create_dir accepted": "C07", "create_dir took a pipe": "C07",
 "dump item files": "C06", "dumping level CUSTOM": "C06",
 "relative and home paths": "C06", "dump files split": "C06",
 "amplitude bounds of zero": "C08", "parameter dictionaries": "C12", "fid_params of the caller": "C12", "final_amps of the result": "C02",
 "FULL dynamics dump": "C06", "float parameters set": "C13", "string parameters that look": "C13", "numpy scalar type were loaded": "C13", "INFO logging failed": "C05", "gradient norm of an earlier": "C09",
 "infinite initial pulse": "C08", "raised TypeError with a list of amplitude": "C08",
 "alg was case sensitive": "C12", "periodic pulses computed": "C08", "linear pulses ignored": "C08",
 "gaussian pulses with a mean": "C08", "max_d2_amp": "C08", "ignored a randomize_freqs": "C08",
 "CRAB gen_pulse failed": "C08", "zero amplitude bounds in the configuration": "C08", "methods that report no iterations": "C08", "dynamics assembled by hand": "C14", "count changed controls": "C15", "cached for changed options": "C15", "change of the operator type": "C15", "drift_ham and ctrl_ham": "C15", "invalid guess pulse action": "C08", "deprecated combine_dyn_gen": "C01", "deprecated compute_prop_grad": "C01", "deprecated get_timeslot": "C01",
}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                     capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = [v for k, v in PROP.items() if k in s]
    fixed.append("fixed: property={} {} {}".format(p[0] if p else "C01", h, s[5:]))
path = os.path.join(HERE, "KNOWN_FINDINGS.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": fixed}, open(path, "w"), indent=1)
