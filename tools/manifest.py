# Writes MANIFEST.json.
import json
DIFF="runtime monitoring: real decoder run on generated types, documents, options and existing contents, every execution judged online by an independent reference decoder cross-validated against encoding/json"
META="runtime monitoring: metamorphic oracle comparing executions of the real decoder"
T={
'C15':("compiler sanitizers and runtime monitors: AddressSanitizer and checkptr builds, GC with clobberfree/invalid-pointer checks forced inside of decoding, guard pages around the input, canaries around the destination, destination rescans after heap reuse","Memory errors are seen when they reach a sanitizer, a guard page, a canary, the collector or the decoded value in the executions made; errors confined to the padding of one Go object can be missed."),
'C16':("runtime monitoring: the input buffer is overwritten or unmapped after Decode and the destination compared with its value before; read-only mappings catch writes; string aliasing observed by address","Inputs and types are sampled."),
'C19':("Go race detector on concurrent workloads plus comparison of every concurrent result with a sequential run","The race detector reports races of the schedules that happen; schedules are varied by goroutine counts, yields inside of unmarshalers and GOMAXPROCS, not enumerated."),
'C20':("runtime monitoring: process supervision of crash, panic, CPU time without progress, memory limit, allocation accounting under hostile input","Non-termination is judged by 60 s of CPU time without finishing one call; allocations by a linear bound with a generous constant."),
'C21':("runtime monitoring: finalizers and weak observation of the destination's objects after forced garbage collections while the decoder stays alive","Sampled types, inputs and ways of ending a call."),
'C13':("runtime monitoring: online comparison of every call in generated call histories (successes, failures, panics of unmarshalers, shared tokenizers) with the same call on a fresh decoder","Histories are sampled (up to 40 calls)."),
'C17':(META+" ([]byte against string input)","Pairs are sampled; the reference decoder is not needed here."),
'C22':(META+" (Unmarshal against NewDecoder plus Decode)","Pairs are sampled."),
'C26':(META+" (respelled documents and embedded values)","Pairs are sampled."),
'C27':("runtime monitoring: round trip of generated values through json.Marshal and the decoder","Values are sampled; json.Marshal is trusted, values it doesn't preserve are recognised by decoding with encoding/json."),
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    t,n=T.get(p['id'],(DIFF,"Cases are sampled (seeded), except for the exhaustive phases listed in the evidence. Trusts encoding/json of Go 1.21, strconv and the reference decoder in harness/ref.go, which is compared with encoding/json on the same cases in every run."))
    checks.append(dict(property=p['id'],quick_cmd=f"VERIF_TIER=quick ./check.sh {p['id']}",thorough_cmd=f"VERIF_TIER=thorough ./check.sh {p['id']}",
      evidence_file=f"evidence/{p['id']}.json",technique=t,level="exploration",level_note=n))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],
 notes="No hooks in /repo: the monitors use the public API; the harness is compiled into /repo's module by a go build overlay. known-findings.txt lists the repaired defects.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
