#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, symbols=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=list(files), mechanism=[dict(name=n, where=files[0] if len(files)==1 else ', '.join(files)) for n in symbols])))

p("C01", "BPE segmentation never loses or invents text",
  "For every word without a plain space and every list of merges, the subtokens a word is split into by BPE, concatenated in order, are exactly the word; only the last subtoken may be empty (the word end being a symbol of its own). With no merges at all (character splitting) every other subtoken is exactly one character.",
  ["inputs", "configurations"], "every word without U+0020 (including ones made of '@' and of any non-ASCII characters), every merge list, empty cache",
  "The tests encode a few dozen words with the shipped merge lists; loss depends on the interplay of escaping, the arbitrary merge list and repeated characters.",
  ["codeprep/bpepkg/bpe_encode.py"], ["escape", "unescape", "to_char_list", "encode", "encode_word", "get_bpe_subwords"])
p("C02", "BPE splits exactly as the priority-ordered merges prescribe",
  "The segmentation of a word is the one obtained from its characters by repeatedly taking the adjacent pair with the best (lowest) priority in the merge list, joining all its occurrences from left to right without overlap, until no adjacent pair is in the merge list. It depends on nothing but the word and the merges, and a word found in the cache gets the cached segmentation.",
  ["inputs", "configurations"], "every word without U+0020 and every merge list",
  "Tests compare fixed words under the shipped lists; ties, overlapping repeats ('aaa'), and pairs created by earlier merges need arbitrary lists.",
  ["codeprep/bpepkg/bpe_encode.py", "codeprep/bpepkg/merge.py"], ["encode", "get_bpe_subwords"])
p("C03", "Splitting with BPE leaves the BPE data unchanged",
  "Splitting a word with BPE modifies neither the cache of known segmentations nor the merge list. So splitting the same word again, any number of times and whatever other words are split in between, gives the same subtokens.",
  ["histories", "inputs"], "every sequence of words split with one set of BPE data",
  "Tests split each word once with fresh BPE data; a defect that needs the second look-up of a cached word is invisible to them.",
  ["codeprep/bpepkg/bpe_encode.py"], ["get_bpe_subwords", "unescape"])
p("C04", "Word boundaries and token types always fit the token list",
  "For every parsed token sequence and every preprocessing configuration the returned metadata fits the returned tokens: word boundaries start with 0, strictly increase and end with the number of tokens, and there is exactly one token type per word. Every word of a comment or of a string literal, however represented, has the type of that comment or literal.",
  ["inputs", "configurations"], "every sequence of parsed tokens of every kind (nested in comments and strings), every combination of options",
  "The tests check a handful of texts under a handful of the option combinations.",
  ["codeprep/preprocess/core.py", "codeprep/preprocess/metadata.py", "codeprep/tokens/containers.py", "codeprep/tokens/word.py", "codeprep/tokens/numeric.py", "codeprep/tokens/whitespace.py", "codeprep/tokens/noneng.py", "codeprep/tokens/rootclasses.py"],
  ["to_repr_list", "torepr", "PreprocessingMetadata.update", "ParsedToken.wrap_in_metadata_for_full_word"])
p("C05", "BPE output marks the end of each word exactly once",
  "In BPE and character mode the last subtoken of every word, and no other subtoken, is suffixed with '</t>'; apart from the suffix the tokens are unchanged, none is added or removed. In the other modes no suffix is added.",
  ["inputs", "configurations"], "every token list with well-formed word boundaries and every configuration",
  "Tests compare a few outputs; the marker placement must agree with the metadata for every boundary list.",
  ["codeprep/pipeline/to_repr.py", "codeprep/preprocess/metadata.py"], ["insert_and_word_tokens", "to_repr", "check_metadata_validity"])
p("C06", "Subword splitting and case encoding are reversible",
  "Building a subword from any non-empty text and printing it gives the text back, whatever its letters and case. Under lower-casing, the emitted form together with its capitalisation marker (<Cap>, <CAPS> or none) determines the original text, and without splitting an identifier is reproduced verbatim.",
  ["inputs"], "every non-empty string over all of Unicode, with and without lower-casing",
  "Tests use ASCII identifiers and a few umlauts; case mapping is not invertible for many other letters.",
  ["codeprep/tokens/word.py", "codeprep/tokens/containers.py", "codeprep/parse/subtokens.py"], ["Word", "SplitContainer", "split_identifier"])
p("C07", "Each placeholder option affects only its own kind of token",
  "A comment, a string literal or a word with non-ASCII characters that the options say to replace becomes exactly its one placeholder, and a newline or tab to be dropped becomes nothing; where text is kept whole in string literals or split into BPE subwords, no-unicode instead replaces each run of non-ASCII characters by one character. Apart from tokens of these kinds nested in them, tokens of other kinds, and all of them when the option is off, are represented just as with the option at its default.",
  ["inputs", "configurations"], "every token of every kind under all combinations of the no-comments, no-strings, no-unicode, no-spaces, split and case options",
  "Tests cover few of the several thousand option combinations, and mostly one option at a time.",
  ["codeprep/prepconfig.py", "codeprep/preprocess/core.py", "codeprep/tokens/containers.py", "codeprep/tokens/noneng.py", "codeprep/tokens/whitespace.py"],
  ["PrepConfig.get_types_to_be_repr", "torepr"])
p("C08", "The maximum string length is applied exactly",
  "For a requested maximum string length from 2 to 61 a string literal is replaced with an empty literal if and only if its length including the quotes exceeds the maximum; requests of 0 and 1 act as 2, and requests of 62 and more (like the default) act as no limit. Asking for strings to be replaced with a placeholder overrides the limit.",
  ["inputs", "configurations"], "every requested length (any non-negative integer), every literal length, with and without full strings and BPE",
  "Tests try single lengths; the limit travels through a one-character encoding where an off-by-one shifts all values.",
  ["codeprep/api/common.py", "codeprep/prepconfig.py", "codeprep/tokens/containers.py"], ["create_str_value", "get_max_str_length", "StringLiteral"])
p("C09", "Encoded preprocessing configurations round-trip",
  "Encoding any valid preprocessing configuration as a string and decoding it gives an equal configuration, and two different configurations never have the same encoding. Configurations with a missing, unknown or contradictory parameter value are rejected with an error both when built and when decoded.",
  ["configurations", "inputs"], "every assignment of values to the six parameters and every string",
  "Tests try a few strings; cached results are looked up by this encoding, so any collision silently reuses wrong data.",
  ["codeprep/prepconfig.py", "codeprep/api/common.py"], ["PrepConfig"])
p("C10", "Command line and library agree on the meaning of options",
  "For every combination of command line options the resulting preprocessing configuration and BPE codes id equal the ones the library function of the same mode uses for the same options. Options that are absent or off mean the library defaults.",
  ["configurations"], "every mode and every combination of its options, any maximum string length",
  "Tests run a list of about forty argument vectors; the option space has thousands of combinations.",
  ["codeprep/cli/impl.py", "codeprep/api/common.py", "codeprep/api/text.py", "codeprep/api/corpus.py"],
  ["create_prep_config_from_args", "create_split_value_from_args", "create_prep_config"])
p("C11", "Merge lists keep priorities equal to positions",
  "In a merge list built by any sequence of appends and concatenations of distinct pairs the i-th merge has priority i, a merge offered with another priority is rejected, and looking a pair up gives its position. Concatenating two lists yields the merges of the first followed by those of the second, renumbered, and modifies neither.",
  ["histories", "inputs"], "every sequence of append and concatenation operations on lists of distinct pairs",
  "The doctests build lists of two or three merges; resumed learning concatenates lists of thousands.",
  ["codeprep/bpepkg/merge.py"], ["MergeList", "Merge"])
p("C12", "Saved BPE files and vocabularies read back unchanged",
  "Merge lists, caches of segmentations, vocabularies and sets of non-BPE tokens written to disk read back equal to what was written, for any words without spaces (including non-ASCII letters, backslashes, tabs and newlines). Reading the first n merges of a file gives the first n merges.",
  ["inputs"], "every merge list, cache, vocabulary and token set; every n",
  "Tests write and read a few ASCII entries; escaping errors need particular characters.",
  ["codeprep/bpepkg/merge.py", "codeprep/bpepkg/cache.py", "codeprep/pipeline/vocab.py", "codeprep/preprocess/metadata.py", "codeprep/util.py"],
  ["read_merges", "dump_merges", "read_bpe_cache", "dump_bpe_cache", "_dump_vocab_dict", "_load_vocab_dict", "_load_vocab_set", "to_literal_str"])
p("C13", "Vocabulary counts are exact however the corpus is partitioned",
  "Merging partial vocabularies gives, for every word, exactly the sum of its counts, adds up the numbers of files, and reports as new exactly the words that were absent before. Splitting the files into groups and chunks for parallel counting puts every file into exactly one group, in order, with group sizes differing by at most one.",
  ["inputs", "histories"], "every pair of vocabularies, every merge order, every number of files and chunks",
  "Tests merge vocabularies of two or three words and one doctest splits seven elements.",
  ["codeprep/util.py", "codeprep/pipeline/vocab.py"], ["merge_dicts_", "groupify", "create_chunk_generator", "PartialVocab.add_vocab"])
p("C14", "Limiting a vocabulary keeps exactly the most frequent words",
  "Limiting a vocabulary to n words keeps all words if there are at most n, and otherwise exactly the words more frequent than the (n+1)-th most frequent one, with their counts. So at most n words remain, and never one of several equally frequent words without the others.",
  ["inputs"], "every vocabulary and every n >= 0",
  "Tests use one vocabulary and few thresholds; equality with the size and ties at the border are the corner cases.",
  ["codeprep/pipeline/vocab.py"], ["PartialVocab.limit_max_vocab"])
p("C15", "BPE codes are selected by id and number of merges exactly",
  "For a requested number of merges the smallest learned merge list that has at least that many is used and only its first requested merges apply; if there is none, the request is refused. Resuming learning starts from the largest list not exceeding the target, and an id is parsed into exactly the name and number it was composed of.",
  ["inputs", "configurations", "histories"], "every set of learned merge counts (among other directories), every requested number, every id",
  "Tests try two or three directory sets.",
  ["codeprep/pipeline/bperegistry.py", "codeprep/pipeline/bpelearner.py", "codeprep/bpepkg/merge.py"],
  ["get_min_merges", "get_max_merges", "CustomBpeConfig", "parse_merge_list_id", "get_dir_with_most_merges"])
p("C16", "Automatically assigned BPE codes ids are always new",
  "An id made up for newly learned BPE codes differs from every id in use, whatever characters dataset names and existing ids contain. It is the dataset name (with the configuration suffix), extended by a number only if that is taken; an id given by the user is used as it is.",
  ["inputs", "histories"], "every dataset name, every BPE configuration and every set of existing ids",
  "Tests use plain alphabetic names.",
  ["codeprep/pipeline/bperegistry.py", "codeprep/bpepkg/bpe_config.py"], ["create_new_id_from"])
p("C17", "Learned merges are the most frequent pairs with exact counts",
  "At every step BPE learning picks a pair of adjacent symbols that is most frequent in the current segmentation of the vocabulary and records its exact frequency; equally frequent candidates come first-counted first. After learning, every word is segmented as the learned merges prescribe, and its concatenation and count are unchanged.",
  ["inputs", "histories"], "every vocabulary of words split into symbols, every number of merges",
  "Tests and doctests use three vocabularies; the counts are maintained incrementally, so an error shows only after particular merge sequences (repeats, overlaps).",
  ["codeprep/bpepkg/bpe_learn.py", "codeprep/util.py"], ["get_stats", "merge_vocab", "do_merges", "PriorityCounter"])
p("C18", "Token iterators cover all subtokens and attribute them correctly",
  "Iterating over full tokens yields one item per word, built from exactly the subtokens between consecutive boundaries; iterating over subtokens yields each subtoken once, in order. With indices requested, each item carries the index of the word it belongs to, and boundary lists that do not start at 0 or do not end at the number of subtokens are rejected.",
  ["inputs"], "every subtoken list and every strictly increasing boundary list",
  "The doctests iterate over three subtokens.",
  ["codeprep/subtokens.py"], ["SubtokenIterator", "FullTokenIterator", "TokenIterator"])
p("C19", "Non-ASCII replacement keeps all ASCII text",
  "Replacing non-ASCII sequences turns every maximal run of non-ASCII characters into exactly one placeholder character and copies every ASCII character unchanged and in order. A text is treated as non-English if and only if it has a non-ASCII character.",
  ["inputs"], "every string and every one-character placeholder",
  "The doctests cover five strings.",
  ["codeprep/noneng.py"], ["replace_non_ascii_seqs", "is_non_eng"])
p("C20", "Distinct source files map to distinct, mirrored output files",
  "Every selected file of a dataset directory is mapped to a parsed and then a preprocessed file at the same relative path plus a fixed suffix, so different source files never share an output and nothing is written outside the output directory. Files are selected exactly by the requested extensions, whose order and repetition do not matter.",
  ["inputs", "configurations"], "every relative file path (as bytes), every extension list",
  "Tests use a few ASCII paths.",
  ["codeprep/pipeline/dataset.py", "codeprep/fileutils.py", "codeprep/dirutils.py"],
  ["SubDataset.get_new_file_name", "SubDataset.file_iterator", "has_one_of_extensions", "normalize_extension_string"])
p("C21", "A stage never reuses outdated or unfinished results",
  "A stage (parsing, preprocessing, vocabulary) reuses existing results only if they were completed and are unchanged since; unfinished results are computed (resuming), and changed ones are archived first and then computed anew. A stage runs only after the stages it depends on were brought up to date.",
  ["histories", "crash_points"], "every combination of present, completed and modified intermediate results",
  "Tests mock single combinations.",
  ["codeprep/pipeline/stages.py", "codeprep/pipeline/dataset.py"], ["run_parsing", "run_until_preprocessing", "run_until_base_bpe_vocab", "run_until_vocab"])
p("C22", "An output file appears only once it is complete",
  "While a file is parsed or preprocessed its result is written under a temporary name and gets its final name only after everything was written, so a crash or an error at any point leaves no incomplete file under the final name. A file that is there already is not rewritten, and a source that disappeared leaves no output.",
  ["crash_points", "fault_sequences"], "every point at which processing of a file can be interrupted or fail",
  "No test interrupts processing.",
  ["codeprep/pipeline/parse_projects.py", "codeprep/pipeline/to_repr.py"], ["preprocess_and_write"])
p("C23", "Preprocessing a corpus gives the same tokens as preprocessing text",
  "The file written for a source file holds the tokens that the same configuration gives for its parsed contents plus an end-of-file token, one line, separated by spaces and escaped reversibly. No token of the output other than the separators introduces a space or a line break.",
  ["inputs", "configurations"], "every parsed token list whose tokens contain no plain space, every configuration",
  "Tests compare a few corpora; escaping and joining must be reversible for any characters.",
  ["codeprep/pipeline/to_repr.py", "codeprep/util.py", "codeprep/preprocess/metadata.py"], ["preprocess_and_write", "to_token_str", "to_literal_str", "save_metadata"])
p("C24", "An interrupted vocabulary merge resumes without loss or double count",
  "If the process is killed at any point while two partial vocabularies are merged on disk, then loading the partial vocabularies again gives exactly the same total counts. A truncated merge result is discarded, a complete one replaces its two parts.",
  ["crash_points", "histories"], "every crash point within a merge, including a partly written merge result, and repeated crashes",
  "No test crashes a merge.",
  ["codeprep/pipeline/vocab.py"], ["finish_file_dumping", "load_partial_vocabs", "VocabMerger._merge"])
p("C25", "Parallel vocabulary merging is independent of scheduling",
  "However the merging processes are scheduled, calculating the vocabulary of a corpus terminates and yields the same counts as counting sequentially.",
  ["schedules"], "every interleaving of the merging processes",
  "Tests run one schedule.",
  ["codeprep/pipeline/vocab.py"], ["VocabMerger.run", "calc_vocab"])
p("C26", "Lexing keeps all visible characters of the source",
  "For every source text and language, the unsplit tokens contain all characters of the text other than whitespace, in order, up to the documented normalisations (lower-cased numbers, end-of-comment markers).",
  ["inputs", "programs"], "every text and lexer",
  "Tests tokenise about ten snippets.",
  ["codeprep/parse/core.py", "codeprep/parse/matchers.py", "codeprep/parse/subtokens.py"], ["convert_text", "split_into_words", "split_string"])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
