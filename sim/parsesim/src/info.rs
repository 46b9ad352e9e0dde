use simcore::driver::Info;

const REAL: &[&str] = &["src: esprit's parser (compiled from /repo as shipped, plus the cfg(esprit_sim) entry points)", "crates/joker", "crates/easter", "crates/derive"];
const STUB: &[&str] = &[
    "the character source (simulator iterator with scripted faults)",
    "the tristate crate (a stand-in: the real one cannot be had offline)",
    "the OS randomness that seeds hash tables",
];
const ASSUME: &[&str] = &[
    "nesting is bounded by the stack the caller provides: up to 300 levels on a 64 MB stack are explored, and programs of up to 200,000 characters that are long but not deep on 1 MB",
    "a source failure is an unwinding panic raised instead of handing over a character",
    "where a slash may be a division or a regular expression the reading that fits the tree is taken",
];
const RULE: &str = "each run draws its own program or token soup, layout, entry point, faults and schedule from the seed; non-trivial: more than four source polls; counted runs have distinct interleaving hashes (delivered text, entry, result kind, scheduler turns)";

const EST_REAL: &[&str] = &["crates/estree", "crates/unjson", "crates/easter", "crates/derive", "src and crates/joker (the parser the trees are compared with)", "serde_json 0.8"];
const EST_STUB: &[&str] = &[
    "the byte stream (simulator reader with scripted faults)",
    "the tristate crate (a stand-in)",
    "the OS randomness that seeds hash tables",
];
const EST_ASSUME: &[&str] = &[
    "documents use the node types the loader knows (ES5 plus for-of, generators, rest, spread, methods, new.target)",
    "tags the loader does not read (Program, Property, SwitchCase, CatchClause, VariableDeclarator, function bodies) are not garbled",
];
const EST_RULE: &str = "each run draws its own program, document spelling, damage, read sizes and faults from the seed; non-trivial: a document of more than 60 bytes; counted runs have distinct interleaving hashes (delivered bytes, read counts, faults met, result kind, nesting order)";

pub fn info(prop: &str) -> Option<Info> {
    let (title, oracle, classes, must): (&str, &str, &[&str], &[&str]) = match prop {
        "C10" => (
            "parsing is total",
            "panics of the library, aborts, hangs, polls after the source's end, source failures that do not surface as themselves, and long flat programs that take more than 1 MB of stack or more than 12,000 bytes of memory per character are violations",
            &["panic", "hang", "abort", "eof-poll", "failure", "cost"],
            &["long programs", "fault:source failed", "fault:source stalled", "fault:source ended early", "fault:character corrupted", "fault:token lost", "parses accepted", "parses rejected", "runs that sweep one fault over every place"],
        ),
        "C11" => (
            "an accepted program is the whole stream",
            "an accepted parse must have met the source's end; read alongside its tree under the reference lexer, the delivered text must consist of just the tokens the tree accounts for, in order (all but parentheses, inserted semicolons and a comma before a closing bracket), with balanced brackets and no token left hanging; intact generated programs must be accepted",
            &["panic", "hang", "abort", "unread", "torn", "rejected"],
            &["long programs", "intact programs accepted", "accepted trees accounted for", "parses rejected", "fault:token lost", "fault:token repeated", "fault:tokens reordered", "fault:stray text", "fault:source ended early", "runs that sweep one fault over every place"],
        ),
        "C12" => (
            "parses are isolated",
            "each parse's result, with every location, against the public string entry point on the delivered text, alone on another thread with other hash keys",
            &["panic", "hang", "abort", "nondeterminism", "isolate"],
            &["runs nested", "runs on several threads", "runs one after another", "parses run from inside another's source", "switches between parses", "parses compared with the string entry point alone", "fault:source failed"],
        ),
        "C13" => (
            "errors blame something in the stream",
            "the token or extent in each error is lexed again from the delivered text at that place; lines and columns are recounted; polls are compared with the end of the second token beyond the blamed one",
            &["panic", "hang", "abort", "blame", "overread"],
            &["errors judged", "parses rejected at the end", "fault:token lost", "fault:character corrupted", "runs that sweep one fault over every place"],
        ),
        "C16" => (
            "places in trees",
            "the delivered text is read again by the reference lexer alongside the tree; wherever the tree places a name, literal, operator, bracket or semicolon, that token must begin and end just there, with line and column recounted; every extent in the tree must lie in the text",
            &["panic", "hang", "abort", "place"],
            &["places of tokens in trees checked", "intact programs accepted", "fault:token lost", "fault:tokens reordered", "fault:character corrupted", "runs that sweep one fault over every place"],
        ),
        "C17" => (
            "goals chosen late",
            "a program is parsed from its stream among others, and taken as a script, a strict script and a module afterwards, in any order; each result, tree with locations or error, against a parse of the delivered text with that goal from the start, alone on another thread",
            &["panic", "hang", "abort", "late"],
            &["goals chosen late", "late goals accepted", "late goals refused", "goals of rejected programs compared", "runs nested", "runs on several threads", "switches between parses", "fault:source failed"],
        ),
        "C18" => (
            "the tree's arrangement",
            "the way statements, expressions, operators, patterns, functions and directives of each accepted tree of an intact program are put together, against the generator's own syntax tree; layout, redundant parentheses, delivery, schedule and neighbours' failures must not show; stripped of its locations, each tree must keep none, keep its arrangement and equal that of the program in its plainest form, parsed alone",
            &["panic", "hang", "abort", "shape", "rejected"],
            &["arrangements compared", "trees compared without their locations", "semicolons to be inserted", "runs nested", "runs on several threads", "switches between parses", "parses rejected", "fault:source failed"],
        ),
        "C19" => (
            "semicolon insertion",
            "semicolons are lost and lines broken; the rules of semicolon insertion, applied to the generated tokens, say whether the program still means the same (compared with the generator's syntax tree, and which semicolons were written), must be rejected, or means what another text means, which is then parsed alone and compared",
            &["panic", "hang", "abort", "asi", "shape", "rejected"],
            &["arrangements compared", "semicolons to be inserted", "programs that miss a semicolon", "expressions that go on in the next line", "statements cut by a line break", "fault:semicolon lost", "fault:line broken", "runs that sweep one fault over every place"],
        ),
        "C21" => (
            "everything in its place",
            "constructs of generated programs are put elsewhere before they are written down (jumps, loops, switches, labels, functions, directives, strict words, defaults, values as targets); the context rules of the language, applied to the generator's syntax tree, give the offences: the parse must be accepted when there is none, and otherwise fail with an error that names one of them",
            &["panic", "hang", "abort", "context"],
            &[
                "programs with everything in place", "constructs elsewhere but in place", "programs with one offence", "offence:stray break", "offence:stray continue", "offence:stray return", "offence:second default",
                "offence:with in strict code", "offence:value as a target", "offence:label not around the jump", "offence:continue to no loop", "offence:reserved word as a name", "offence:eval or arguments bound",
                "fault:directive put in", "fault:name changed for a strict word", "fault:jump put elsewhere", "runs nested", "runs on several threads", "runs that sweep one fault over every place", "fault:source failed",
            ],
        ),
        "C22" => (
            "trees tell programs apart",
            "a program is sent, and arrives with tokens lost, repeated, moved or garbled, or only laid out anew; where both it and the program as sent are accepted, their trees, located and with locations removed, must compare equal (either way round, and in what they show) exactly when an independent reader of their fields finds no difference; copies must equal their originals",
            &["panic", "hang", "abort", "tell"],
            &["pairs put together alike", "pairs put together differently", "trees equal with their locations", "fault:token garbled", "fault:token lost", "fault:tokens reordered", "fault:token repeated", "fault:character corrupted", "runs nested", "runs on several threads", "runs that sweep one fault over every place"],
        ),
        "C23" => (
            "everything is given back",
            "programs are parsed and documents loaded from faulty, nested and interleaved sources, each round with other names; the heap is metered before each round and after everything it gave (tree, error or failure) is dropped: if a second, third or fourth round takes more, three hundred are run, and what still grows is lost",
            &["panic", "hang", "abort", "kept"],
            &["rounds after which everything was dropped", "documents loaded again and again", "parses accepted", "parses rejected", "parses ended by the source's failure", "runs nested", "runs on several threads", "fault:source ended early", "fault:source stalled", "fault:token lost", "fault:character corrupted", "fault:I/O error", "fault:reader failed"],
        ),
        "C25" => (
            "what the grammar derives is accepted, and nothing else",
            "programs whose tokens and characters are lost, repeated, moved and garbled on their way are parsed, alone, nested in each other's sources, on threads and after failed neighbours; an independent reading of the grammar over the text that arrived says whether it is a program, how it is put together, which semicolons were inserted and what is out of place",
            &["panic", "hang", "abort", "derive"],
            &["texts that are no program", "texts that are programs", "derivations compared", "programs with something out of place", "fault:token garbled", "fault:token lost", "fault:tokens reordered", "fault:token repeated", "fault:stray text", "fault:character corrupted", "fault:character lost", "fault:semicolon lost", "fault:line broken", "runs nested", "runs on several threads", "runs that sweep one fault over every place"],
        ),
        "C14" => (
            "an ESTree document loads whole or not at all",
            "an undamaged document must load, from any reader, to the tree the string parser builds for the same program (locations removed); a document with a part lost or garbled, a cut or failed stream, or text behind it must be refused; where list elements are lost, repeated or moved, nodes stand in another's place or names are exchanged, a tree that loads must hold exactly the names and literals of the document, in order; for garbled bytes the reader and the bytes in one piece must agree and no name or literal may appear in the tree that is not in the document",
            &["panic", "hang", "abort", "est-lost", "est-tree", "est-chunk"],
            &["loaded trees compared with the parser's", "documents refused", "fault:node part lost", "fault:node part garbled", "fault:interrupted read", "fault:I/O error", "fault:stream cut", "fault:byte garbled", "fault:short read", "fault:list elements lost, repeated or reordered", "fault:node in another's place", "loaded trees accounted for", "loads run from inside another's reader"],
        ),
        _ => return None,
    };
    if prop == "C14" {
        return Some(Info { title, rule: EST_RULE, oracle, assumptions: EST_ASSUME, real: EST_REAL, stub: EST_STUB, classes, must_fire: must });
    }
    Some(Info { title, rule: RULE, oracle, assumptions: ASSUME, real: REAL, stub: STUB, classes, must_fire: must })
}
