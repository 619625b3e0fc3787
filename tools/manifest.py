#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusted: TLC, the harness that records what the library does, and the specification itself, which was written from the "
         "language's rules and the documented dialect. Bounded: what the listed input families contain (see evidence).")
COMMON = "TLA+ specification checked by TLC; traces recorded from the real library are checked against it"
CHECKS = {
    "C01": ("lexical grammar in TLA+ (Lex) and as a state machine (Scanner) explored by TLC; recorded token streams are validated by TLC", "Every token of every recorded token stream is compared with the longest-match stream the specification gives: all texts of up to 3 characters over the alphabet, all token pairs, runs of every length around the lexer's block sizes up to 70000, random texts. "),
    "C02": ("outcome specification in TLA+ (Check, System) over recorded outcomes of every operation", "Every operation of the library ran on every input under supervision (memory limit, time limit); a panic, a crash, no answer or an outcome the specification does not allow is a violation. "),
    "C03": ("grammar of expressions in TLA+ (Parse); recorded trees are validated by TLC", "All operator pairs, a share of all operator triples, every construct in every position and random deep expressions, each recorded tree compared with the specification's tree. "),
    "C04": ("grammar in TLA+ (Parse); recorded trees are validated by TLC", "Every statement in every position, statement pairs, patterns, class members, imports, lists of many lengths and random programs, each recorded tree compared with the specification's tree. "),
    "C05": ("semicolon insertion in TLA+ (Lex, Parse); recorded trees are validated by TLC", "Every pair of statements with every separator, line breaks inside statements and random programs whose semicolons are omitted. "),
    "C06": ("acceptance and first error in TLA+ (Parse); recorded verdicts and errors are validated by TLC", "Every sequence of three tokens over the core token set, mutated and truncated programs: verdict, first error and order of errors are compared with the specification's. "),
    "C07": ("byte ranges of all nodes in TLA+ (Parse); recorded trees are validated by TLC", "All node ranges of every recorded tree are compared, and the same programs behind up to 1000003 bytes of padding. "),
    "C08": ("layout independence over the TLA+ grammar; recorded trees of several layouts are validated by TLC", "Programs are laid out in several ways; trees have to agree with each other and with the specification's. "),
    "C09": ("round trip over the TLA+ grammar: the specification parses what the library printed", "What both printers give is parsed by the library and, independently, by the specification and compared with the tree that was printed. "),
    "C10": ("printed form in TLA+ (Print); recorded texts are validated by TLC", "Both texts are compared with the text the specification prints, and printed again after parsing. "),
    "C11": ("visiting order in TLA+ (Walk); recorded visitor traces are validated by TLC", "Each recorded sequence of visitor calls is compared with the specification's. "),
    "C12": ("scope analysis in TLA+ (Scopes) over the visitor specification; recorded scopes are validated by TLC", "Each recorded scope tree is compared with the specification's. "),
    "C13": ("transformation in TLA+ (Arrows); recorded trees and texts are validated by TLC", "Transformed trees and their printed texts are compared with the specification's transformation. "),
    "C14": ("ESTree export in TLA+ (Estree); recorded documents are validated by TLC", "Both exported documents are compared, member by member, with the document the specification gives for the tree. "),
    "C15": ("error report in TLA+ (Report); recorded reports are validated by TLC", "Each recorded report is compared with the text the specification gives. "),
    "C16": ("API histories as a TLA+ state machine (System); TLC's behaviours are replayed into the library and recorded histories are validated", "Histories of operations on several modules and threads, generated by TLC, are replayed; every answer has to be the one the specification's memory of earlier answers allows. "),
    "C17": ("facade as composition in TLA+ (Check over Print and Report); recorded answers are validated by TLC", "Answers of the facade are compared with the specification's composition and with the library's own operations. "),
    "C18": ("calls of the Node.js binding as a TLA+ machine (Binding, Sessions); TLC's call sequences are replayed and recorded answers validated", "Every list of up to 3 arguments for every function, every pair of well-formed and ill-formed calls, all views of texts of all kinds. The binding is compiled against a stand-in for neon, which cannot be fetched here. "),
}
DONE = os.environ.get("DONE", " ".join(CHECKS)).split()
NOT = {}


def main():
    checks = [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
               "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p][0], "level": "model_checking",
               "level_note": CHECKS[p][1] + TRUST} for p in CHECKS if p in DONE]
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
         "not_applicable": [{"property": p, "reason": NOT.get(p, "not yet built")} for p in CHECKS if p not in DONE],
         "notes": COMMON + ". No hooks in /repo are needed: the harness uses the public interface of the crates. See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
