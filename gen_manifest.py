"""Write MANIFEST.json from properties.jsonl."""
import json, pathlib
here = pathlib.Path(__file__).parent
TECH = {
    "C01": "property-based testing: generated spellings against exact integer arithmetic; exhaustive short encodings",
    "C02": "property-based testing: generated operands against exact values; exhaustive short encodings",
    "C03": "property-based testing: dictionary writer as the reference (round trip); exhaustive operators",
    "C04": "property-based testing: lookups against a table written from the specification; exhaustive over operators",
    "C05": "property-based testing: index writer as the reference (round trip)",
    "C06": "property-based testing: one defect injected into well-formed tables; mutation fuzzing against an independent reader",
    "C07": "exhaustive enumeration of identifiers and generated texts against an independent table and decoder",
    "C08": "exhaustive enumeration against tables written from the specification",
    "C09": "property-based testing: table writers as the reference (round trip)",
    "C10": "property-based testing: font-set writer as the reference (round trip); differential mutation fuzzing against an independent reader",
    "C11": "property-based testing: font-set writer as the reference (round trip)",
    "C12": "metamorphic property-based testing: two layouts and positions of one font set",
    "C13": "mutation and grammar-based fuzzing with overflow checks, a counting allocator and work limits",
    "C14": "fault injection by generation: pieces, interruptions, every truncation, an error at every read and seek",
    "C15": "property-based testing: grammar-generated programs with known meaning; exhaustive operand counts and masks",
    "C16": "property-based testing: generated programs with and without a width; exhaustive first operations",
    "C17": "property-based testing: generated operator sequences against a reference model; exhaustive rolls, indices and pairs",
    "C18": "metamorphic property-based testing: programs before and after factoring; exhaustive chains and bias limits",
    "C19": "property-based testing: flaws injected into well-formed programs; differential mutation fuzzing",
    "C20": "fuzzing: noise, mutated, extreme and all short programs with stack, work and overflow limits",
    "C21": "property-based testing: generated sequences of tables laid end to end",
    "C22": "differential testing: real, generated and mutated fonts against an independent reader and interpreter",
    "C23": "stateful property-based testing: generated histories, interleavings, nestings and threads against independent models of each",
}
checks = []
for line in open(here / "properties.jsonl"):
    item = json.loads(line)["id"]
    checks.append({
        "property": item,
        "quick_cmd": f"./check.sh {item}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {item}",
        "evidence_file": f"evidence/{item}.json",
        "technique": TECH[item],
        "level": "exploration",
        "level_note": f"Generated-input search; the bounds and what the oracle trusts are in DESIGN.md, section {item}.",
    })
manifest = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --release --offline --locked",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is reachable through the public interface. Known findings: known-findings.txt (all repaired). ./check.sh ID runs a check; harness/target/release/pvcheck replay FILE replays a violation.",
}
(here / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
