BASE = ' Trusted: the verifier pyvc and its Python semantics, z3/cvc5.'
CLAIMS = {
    'C01': 'Proved for every word without a space and every merge list: escape, to_char_list, encode, encode_word, unescape and get_bpe_subwords, each loop with an '
           'inductive invariant (concatenation, escaping, no empty piece, termination); single characters without merges. The laws of '
           'str.replace used are proved by induction on the text; join/split round trip is a trusted lemma.' + BASE,
    'C02': 'Proved for every word without a space and every merge list with priorities below sys.maxsize: encode_word gives the pieces of the '
           'mathematical definition (rounds; in each the best priority of a pair, its occurrences joined from the left) after the first round in which no pair is '
           'a merge; both loops over positions, the rebuilding loops and the loop over rounds with inductive invariants and termination; a cached word gets '
           'its cached pieces, unescaped. The characters of the word are C01; join/split round trip is a trusted lemma.' + BASE,
    'C03': 'Proved for every cache and merge list: get_bpe_subwords leaves the words, the pieces of each and the merges as they were and repeats its result '
           'after another word; encode_word leaves the merges alone, and its result is a function of word and merges (C02).' + BASE,
    'C06': 'Proved for every non-empty text: Word.from_ prints as the text; lower-cased, marker and form decode to it; otherwise the text itself is '
           'split; split_identifier keeps every part (matches of a pattern covering all but spaces: assumed of regex) and an unsplit container is '
           'the concatenation of its subtokens. Laws of str case mapping are assumed, and checked on every cased code point.' + BASE,
    'C07': 'Proved for every valid configuration: each option decides on exactly its own kinds of tokens and on nothing else of the configuration; '
           'for every token class and combination of options: the one placeholder or nothing if of the kind, else the same as with all options off '
           '(nested tokens by the torepr contract, induction over token trees outside); non-ASCII runs of whole texts; lists part by part.' + BASE,
    'C18': 'Proved for all inputs: both iterators, driven by a client loop with an inferred inductive invariant, yield exactly the items the '
           'property states; constructor accepts/rejects exactly the stated boundary lists.' + BASE,
    'C19': 'Proved for all words and placeholders: replace_non_ascii_seqs equals the run-wise spec fold; is_non_eng iff a non-ASCII '
           'character.' + BASE,
    'C08': 'Proved: request -> encoded value -> limit for every integer request >= 0; every mode configuration carries that limit or the '
           'placeholder; a literal of any tokens is emptied iff longer than the limit and otherwise represented exactly as without one '
           '(relational, nested tokens by the torepr contract); the length is that of the lexed literal.' + BASE,
    'C09': 'Proved for arbitrary strings as parameter values and as encodings: accepted iff valid, encode/decode round trip, equality iff equal '
           'encodings, each missing key rejected.' + BASE,
    'C10': 'Proved for every combination of options the usage admits (parsed argument dictionaries: values symbolic, off options present or '
           'left out): command line and library hand equal configuration, codes id and other arguments to the common preprocessing '
           'function; create_str_value by its C08 contract; docopt itself is outside (cross-checked by replay through the real parser).' + BASE,
    'C05': 'Proved for all word lists of any length (and every split of a word into subtokens): to_token_str marks exactly the last subtoken '
           'of each word with the end-of-word suffix, changes nothing else; in the other modes no suffix is added.' + BASE,
    'C11': 'Proved: class invariant (priority = position, no duplicate pair) established by the constructor, kept by append, __add__ and '
           'slicing; wrong priorities rejected; concatenation renumbers and leaves both operands untouched.' + BASE,
    'C13': 'Proved for all vocabularies and all corpora: PartialVocab.merge adds counts key by key and returns exactly the new words; '
           'file groups and chunks partition the list in order, sizes differ by at most one.' + BASE,
    'C14': 'Proved for all vocabularies and limits: limit_max_vocab keeps exactly the words more frequent than the (n+1)-th.' + BASE,
    'C15': 'Proved for all directory contents (file-system reads as uninterpreted functions): the merge list used is the smallest one '
           'sufficient, only its first n merges apply, a request that cannot be met is refused; ids compose and parse back.' + BASE,
    'C16': 'Proved for all sets of ids in use and all dataset names: the generated id is new and of the stated form.' + BASE,
    'C20': 'Proved for all directory trees (os.walk as an arbitrary sequence), extension lists and paths: walk_and_save yields and lists '
           'exactly the selected non-link files; file_iterator and get_new_file_name map each to the mirrored parsed and preprocessed path; '
           'different relative paths give different outputs; the normalised extensions do not depend on order or repetition.' + BASE,
    'C12': 'Proved for all contents: each writer (merges, cache, counts, token sets, vocabulary) writes exactly one line of the stated form per '
           'entry, and each reader gives back exactly the entries of such a file; reading the first n merges gives the first n. The codec '
           'unicode-escape is assumed to escape character by character, invertibly, into printable ASCII (cross-checked by replay).' + BASE,
    'C04': 'Proved for every token class, every configuration and token lists of any length: the boundaries start with 0, increase strictly and end '
           'with the number of tokens, one type per word, every word of a comment or literal has its type (torepr verified class by class against '
           'one contract assumed for nested tokens). Splitters are assumed to give at least one piece.' + BASE,
    'C22': 'Proved for every point at which the process can stop and every fault of a file operation, of parsing, of representing or of '
           'saving the metadata: after each step only a complete result has the final name, a result that was there is untouched, '
           'a vanished source leaves nothing. Assumed: os.rename is atomic, a closed file is complete (ghost file system).' + BASE,
    'C23': 'Proved, every function from the lexer\'s tokens to the written line: no token made by the parser, represented by any token class '
           'or suffixed contains a space (structural induction over tokens); the file holds one line, which unescaped and split at spaces '
           'gives back the tokens of the configuration plus the end of file; the text API represents the same tokens. Assumed: case mapping '
           'makes no spaces, ronin/stem keep their contract, the unicode-escape codec is inverted by decoding, what a regex finds is matched '
           'by an alternative of it.' + BASE,
    'C24': 'Proved for every step on disk at which a merge, or resuming one, can be stopped, and for a merge result truncated anywhere: what loading '
           'again would count has the same totals (crash invariant over a ghost file system); load_partial_vocabs resumes every interrupted merge '
           'and then loads every partial vocabulary once, for directories of any size; they are declared ready only once all are there. Assumed: '
           'identifiers are unique, renaming is atomic, a truncated pickle raises one of the four errors (cross-checked by replay).' + BASE,
    'C21': 'Proved, for every combination of present, marked and modified results: each stage runs the stages before it first, reuses its result only '
           'if it is there, marked and its time stamp is the one marked, archives it first (result before mark) if the stamp differs, and marks it only '
           'after everything was computed; the parse and preprocessing runs handle every file; time stamps are the latest of all entries, the directory '
           'included; gathering and the end of merging leave only complete vocabularies under the final names. Assumed: changing a result changes its '
           'time stamp (granularity of a second, the first 1000 entries), renaming is atomic, a pool runs its function on every item.' + BASE,
}
