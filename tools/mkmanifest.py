#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH='deterministic simulation with fault injection: seeded search over sources, call histories, schedules and faults'
TRUST=' Trusted: the simulator, its reference lexer and its oracles; what is sampled, not exhausted, is the space of runs.'
CLAIM={
'C01':'Seeded runs of the real lexer over generated and corrupted texts, truncated, stalled, failing and resuming sources and random legal call histories; panics, aborts, hangs, super-linear work or allocation (tokens and trivia of up to three million characters) and lack of progress are violations.',
'C02':'Every token of every run is compared with a mirror of the look-ahead buffer, with a reference lexer on the delivered text, and with a straight read-only client asked for the same goals.',
'C03':'Sources that end, stall and would resume, or fail when polled after their end; every later call must give one and the same end-of-input token and no poll may follow the end.',
'C04':'Every extent, line, column and reported position is recomputed from the delivered text after every call.',
'C05':'Source polls and live heap are measured around every call of every run.',
'C06':'Lexers run interleaved on one thread, nested inside each other\'s sources, on cooperatively scheduled threads and under different hash seeds; each result log is compared with the same lexer alone.',
'C07':'Newline flags and --> comments against the reference lexer over layouts damaged in flight, and each later delivery of a token against its first.',
'C08':'The same text whole and cut at all (short texts) or many sampled positions, each cut run compared with the whole run and with the reference lexer on the cut text.',
'C09':'One-off source failures (unwinding) and lexical errors struck at random points with random buffered tokens; buffered tokens, payload, position and everything after must be right.',
'C10':'The real parser over damaged, cut, stalled and failing character streams; its own panics, aborts, hangs and polls after the end are violations, injected failures must surface unchanged.',
'C11':'Damaged token streams of generated programs: an accepted parse must have consumed the whole stream and account for exactly the tokens of the delivered text, in order (all but parentheses and closing commas); intact programs must be accepted.',
'C12':'Parses nested in each other\'s sources, interleaved on cooperatively scheduled threads, under different hash seeds and after failed neighbours, against the string entry points alone.',
'C13':'The token or span in every error of every damaged stream is recomputed from the delivered text; polls of the source are counted.',
'C14':'ESTree documents through readers with short reads, interruptions, I/O errors, cuts and garbled bytes, and with required parts lost or garbled, compared with the tree the parser builds from the same program.',
'C15':'Several consumers extract, read and convert fields of shared JSON objects with fields missing, null or of another type; a model object is compared in full after every step.',
'C16':'Every place recorded in the trees of damaged, relaid and intact programs is recounted from the delivered text under the reference lexer.',
'C17':'Programs parsed without a goal from faulty, nested and interleaved streams and given goals afterwards in any order, against parses with that goal from the start, alone on another thread with other hash keys.',
'C18':'Intact programs of every layout, parsed alone, nested in each other\'s sources, on threads and after failed neighbours: the arrangement of each tree against the generator\'s syntax tree, and the tree without locations against the plainest form parsed alone.',
'C19':'Semicolons lost and lines broken in flight, one by one or at every place in turn; the rules of insertion applied to the generated tokens decide what the parse must give: the same program, a rejection, or what a reference text gives.',
'C21':'Constructs of generated programs are put where they may not belong (jumps, labels, loops, functions, directives, reserved words, targets), one, many, or one kind at every place in turn; parses run alone, nested in each other\'s sources, on threads and after failed neighbours; the context rules applied to the generator\'s syntax tree say whether the parse must be accepted, and if not which errors are right.',
'C22':'Programs are sent through streams that lose, repeat, move and garble tokens (often for others of their kind) or only change the layout; the tree of what arrives, parsed alone, nested or on threads, is compared with the tree of what was sent, and the verdict of ==, Debug and clone with that of an independent reader of the fields.',
'C23':'Rounds of parses and loads with faulty, nested, threaded sources and other names each time; the heap is metered before each round and after all results and failures of it are dropped; rounds that keep taking more are a leak.',
'C25':'Programs whose tokens and characters are lost, repeated, moved, replaced and garbled in flight, one slip or many, or one kind at every place in turn, alone, nested, on threads; an independent recursive-descent reading of the grammar over the text that arrived decides acceptance, arrangement, semicolons and the token to blame.',
'C26':'Texts full of broken tokens, damaged further, ended and stalled in flight, read by clients with arbitrary look-ahead histories; the reference lexer says which rule is broken at which character, and the error and the position after it must say the same.',
}
NA={
'C20':'A pure, sequential function of one complete text; no schedule, clock, I/O, randomness or fault takes part, so simulation decides nothing that plain conformance testing would not. (The parts that faults and histories can disturb are C01-C09.)',
'C24':'A pure, sequential property of one tree, with no schedule or fault for it to depend on. (What damage and look-ahead can disturb, the places of tokens, is C16, and losing nothing when locations are removed is in C18; on the pinned tree the extents of whole statements and expressions are known to be off, see DESIGN.md.)',
}
HOOK=subprocess.run(['git','-C','/repo','log','--format=%H','--grep=^hook:'],capture_output=True,text=True).stdout.split() or ['3fded9d']
DONE=set(os.environ.get('DONE','').split()) or set(CLAIM)
m={'version':1,'setup_cmd':'./setup.sh',
 'hooks':{'guard':'cfg(esprit_sim)','enable':'RUSTFLAGS="--cfg esprit_sim" (set by tools/build.sh)','source_commits':HOOK},
 'checks':[{'property':p,'quick_cmd':f'./check.sh {p}','thorough_cmd':f'VERIF_TIER=thorough ./check.sh {p}','evidence_file':f'evidence/{p}.json',
   'technique':TECH,'level':'exploration','level_note':n+TRUST} for p,n in CLAIM.items() if p in DONE],
 'not_applicable':[{'property':p,'reason':r} for p,r in NA.items()]+[{'property':p,'reason':'machinery under construction'} for p in CLAIM if p not in DONE],
 'notes':'See DESIGN.md. Replay a violation with ./replay.sh FILE.'}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(root,'MANIFEST.json'),'a').write('\n')
