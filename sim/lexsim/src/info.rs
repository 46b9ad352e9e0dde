use simcore::driver::Info;

const REAL: &[&str] = &["crates/joker: Lexer, Reader, token and word tables (compiled from /repo as shipped)"];
const STUB: &[&str] = &["the character source (simulator iterator with scripted faults)", "the lexer's client", "the OS randomness that seeds hash tables"];
const ASSUME: &[&str] = &[
    "clients respect the documented contract: at most two tokens buffered, re-reading only a buffered token, un-reading only the last token read",
    "a source failure is an unwinding panic raised before the character is handed over",
    "choices of the library that the standard words differently are not judged: newline inside a regular-expression class, escapes denoting surrogates, => and ** as two tokens, U+2007/2008/180E, spellings after a number that start with a backslash",
];
const RULE: &str = "each run draws its own mix of token kinds, separators, look-ahead calls and faults from the seed; non-trivial: the run made more than four steps (source polls, calls, turns) and no two counted runs have the same interleaving hash";

pub fn info(prop: &str) -> Option<Info> {
    let (title, oracle, classes, must): (&str, &str, &[&str], &[&str]) = match prop {
        "C01" => (
            "lexing is total",
            "every call returns; panics of the library, aborts (2 GB heap, stack), hangs and calls whose source polls exceed the characters consumed by more than six are violations; the final drain must end within text length + 8 reads",
            &["panic", "hang", "abort", "no-progress", "overwork"],
            &["fault:corrupted character", "fault:source ended early", "fault:source stalled", "fault:source failed once", "lexical errors", "end-of-input tokens", "lexers dropped midway"],
        ),
        "C02" => (
            "look-ahead transparency",
            "mirror of the look-ahead buffer (identity of every buffered token), reference lexer over the complete text with the goal of each first scan, and a straight read-only client over the same text",
            &["panic", "hang", "abort", "identity", "value", "span", "straight", "missing-error", "spurious-error"],
            &["tokens put back", "two tokens buffered", "tokens judged", "scans compared with a plain reader"],
        ),
        "C03" => (
            "end of input is final",
            "once the source ended: no further poll, only end-of-input tokens, all at one position equal to the number of delivered characters; errors and tokens before it as by the reference lexer on the delivered text",
            &["panic", "hang", "abort", "eof-final", "eof-poll", "value", "span", "missing-error", "spurious-error", "posn"],
            &["fault:source stalled", "fault:source unusable after its end", "fault:source ended early", "reads after the end", "tokens put back"],
        ),
        "C04" => (
            "positions",
            "extents, lines and columns recomputed from the delivered text; the reported position after every call against the furthest scan",
            &["panic", "hang", "abort", "span", "linecol", "posn"],
            &["tokens judged", "fault:corrupted character", "tokens put back"],
        ),
        "C05" => (
            "lazy, bounded read-ahead",
            "source polls counted around every call; heap peak of every scan against the size of the token it returned",
            &["panic", "hang", "abort", "readahead", "buffered-pull", "memory", "overwork"],
            &["calls with heap measured", "lexers dropped midway", "tokens put back"],
        ),
        "C06" => (
            "isolation and determinism",
            "each lexer's complete result log among others against its log alone, on another thread with other hash keys; and each against the reference lexer",
            &["panic", "hang", "abort", "nondeterminism", "interleave", "identity", "straight", "value", "span", "newline", "linecol"],
            &["runs taking turns", "runs nested", "runs on several threads", "calls made from inside another lexer's source", "switches between lexers", "lexers compared with a run by themselves", "calls from another thread", "fault:source failed once"],
        ),
        "C07" => (
            "line-break information",
            "newline flags and --> comments against the reference lexer, and every later delivery of a token against its first",
            &["panic", "hang", "abort", "newline", "identity", "value", "span", "missing-error", "spurious-error", "straight"],
            &["tokens judged", "tokens put back", "fault:corrupted character", "fault:source ended early"],
        ),
        "C08" => (
            "cut sources",
            "every cut of the text (all cuts up to 48 characters, samples beyond): tokens the complete source yielded before it was polled past the cut must be identical, everything else as the reference lexer reads the cut text",
            &["panic", "hang", "abort", "prefix", "value", "span", "missing-error", "spurious-error", "eof-final"],
            &["fault:cut source", "cut runs ending in an error", "tokens compared with the complete source", "tokens judged", "errors judged"],
        ),
        "C09" => (
            "errors and source failures are contained",
            "buffered tokens identical after a failure, injected payloads propagate unchanged, position monotone and within the delivered text, later tokens by the reference lexer from the reported position",
            &["panic", "hang", "abort", "identity", "posn", "span", "value", "missing-error", "spurious-error", "no-progress", "buffered-pull", "linecol", "newline"],
            &["fault:source failed once", "lexical errors", "tokens put back", "errors judged", "fault:corrupted character"],
        ),
        "C26" => (
            "what a lexical error says",
            "the reference lexer's own reading of the text: at which character it stops making sense and which rule is broken there; the error's kind, the character (code point, word) it carries and the position the lexer stands at, against it",
            &["panic", "hang", "abort", "lexerr", "missing-error", "spurious-error"],
            &["errors judged", "fault:corrupted character", "fault:source ended early", "errors naming a character", "errors naming the end of input", "tokens put back"],
        ),
        "C15" => {
            return Some(Info {
                title: "JSON extraction",
                rule: "each run draws a document, one to four consumers with their steps, a schedule and faults from the seed; non-trivial: more than one step; counted runs have distinct interleaving hashes",
                oracle: "a copy of the object updated by the meaning of each step, compared in full after every step; every result judged against the stored value's own type",
                assumptions: &[
                    "whether a field whose extraction was refused stays in the object is not judged",
                    "an integer asked for in another numeric representation may be refused or converted exactly",
                ],
                real: &["crates/unjson (compiled from /repo as shipped)", "serde_json 0.8 values"],
                stub: &["the consumers"],
                classes: &["panic", "hang", "abort", "json-value", "json-other"],
                must_fire: &["fault:field lost", "fault:field garbled", "reads answered", "reads refused", "extractions answered", "extractions refused", "conversions", "objects entered"],
            })
        }
        _ => return None,
    };
    Some(Info { title, rule: RULE, oracle, assumptions: ASSUME, real: REAL, stub: STUB, classes, must_fire: must })
}
