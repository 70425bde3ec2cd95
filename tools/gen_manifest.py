"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STREAM = "TLA+ (Stream.tla, CoNet.tla) checked by TLC; its state graph replayed on the real modules"
BOUND = ("TLC explores the whole stream state graph of each listed network (frames named by age, the counter wraps at the "
         "period, so streams of any length are covered) and checks the laws on every transition; every edge or a long random "
         "walk is then replayed on the real module with torch.nn functions as the meaning of the frames. Bounded by the "
         "networks, chunk lengths and tensor shapes listed, sampled with VERIF_SEED.")
ATTN = "TLA+ (Attn.tla) checked by TLC; its state graph replayed on the real attention modules and encoders"
ABOUND = ("TLC explores every state of the incremental algorithms (memories, retroactive bags of contributions, residual "
          "delay lines; tokens named by age, so streams of any length are covered) for each listed sequence length, query "
          "position and depth, and checks each output to be attention over exactly the window and the state to hold no "
          "token which left it; every edge or a long walk is replayed on the real module, whose outputs must equal the "
          "attention formula and torch.nn. Bounded by the configurations listed, sampled with VERIF_SEED.")
MODES = "TLA+ (CallMode.tla) checked by TLC, its behaviours replayed on real module trees; plus Stream.tla and Attn.tla under contexts"
MBOUND = ("TLC explores all states of the call-mode machine (own modes, context stack, calls with errors at any leaf) for small "
          "trees and generates random behaviours for larger ones, which are replayed on trees of recording modules with real "
          "with-blocks and errors; real networks and encoders are driven along Stream.tla and Attn.tla with every way of choosing "
          "the mode. Bounded by the trees, behaviour lengths and nesting depths listed, sampled with VERIF_SEED.")
DICTS = "TLA+ (StateDict.tla) checked by TLC, its behaviours replayed on real nested containers; plus Stream.tla and Attn.tla around saving and loading"
DBOUND = ("TLC checks the laws of names for all small sets of keys and explores small containers fully; it generates random "
          "behaviours (training, stepping, flattening contexts and requests, saving, loading, refused dicts) for larger trees, "
          "replayed on real containers. Bounded by the trees and behaviour lengths listed, sampled with VERIF_SEED.")
CONV = "TLA+ (Convert.tla) checked by TLC, its behaviours replayed on real torch.nn trees; plus Stream.tla for the converted networks"
CBOUND = ("TLC explores every history of conversions, markings, registrations and modes of small trees and generates random "
          "behaviours for larger ones, replayed on real networks (classes, identities, settings, weights, data types, refusals, "
          "whole-clip equality); converted networks are replayed along the full state graph of Stream.tla. Bounded by the trees, "
          "settings and lengths listed, sampled with VERIF_SEED.")
MEM = "TLA+ (Memory.tla) checked by TLC, its behaviours replayed on real networks beside twins whose memory is never reused"
EBOUND = ("TLC explores the states of caller-owned memory cells (filled, handed over, spoilt, refilled, fed again) for a small number "
          "of cells and generates random behaviours, which are replayed on real modules, compositions and attention with real "
          "shared memory (views, slices, in-place refills); every result must be that of a twin fed the same values in memory of "
          "their own, and no cell may change on its own. Bounded by the networks, cells and lengths listed, sampled with VERIF_SEED.")
CLAIMED = {
    "C27": (MEM, EBOUND),
    "C28": ("TLA+ (Stream.tla, Attn.tla) checked by TLC; derivatives of replayed whole-clip calls against difference quotients of the specification's terms",
            "Walks of the specification's state graph in which whole-clip calls are differentiated in random directions (input and every "
            "weight) and compared with difference quotients of the specified output terms, and in which weights change between streams "
            "(optimiser step, in-place, replaced, loaded), the terms then being evaluated with the new ones. Bounded by the networks, "
            "directions and lengths listed, sampled with VERIF_SEED."),
    "C17": (MODES, MBOUND),
    "C21": (DICTS, DBOUND),
    "C20": (CONV, CBOUND),
    **{c: (STREAM, BOUND) for c in ("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C16 C18 C19 C22 C23 C24 C29").split()},
    **{c: (ATTN, ABOUND) for c in ("C13 C14 C15").split()},
}
NOT = {
    "C25": "A bound on accumulated floating point rounding is a numerical statement; a TLA+ or Quint specification of states "
           "and transitions has exact values and cannot express or decide it.",
    "C26": "Operation counting is done through hooks of the third-party ptflops package, which is not a transition system of "
           "this library; a specification would only restate the counting formulas.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = [dict(property=i, quick_cmd="python3 check.py " + i,
                   thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                   technique=CLAIMED[i][0], level="model_checking", level_note=CLAIMED[i][1])
              for i in ids if i in CLAIMED]
    na = [dict(property=i, reason=NOT.get(i, "not claimed yet: its specification is under construction"))
          for i in ids if i not in CLAIMED]
    m = dict(version=1, setup_cmd="sh setup.sh", checks=checks, not_applicable=na,
             notes="See DESIGN.md. No hooks in /repo are needed: the checks use the public interface only.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
