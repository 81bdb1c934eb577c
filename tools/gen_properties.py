"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
F = 'src/zope/index/field/index.py'; S = 'src/zope/index/field/sorting.py'
K = 'src/zope/index/keyword/index.py'
TI = 'src/zope/index/topic/index.py'; TF = 'src/zope/index/topic/filter.py'
T = 'src/zope/index/text/'
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p('C01', 'Field index range search is exact',
  'After any history of indexing, reindexing, unindexing and clearing, a field-index search for a (low, high) pair returns exactly the ids of the documents whose current value lies in the closed interval, where None leaves that end open. It finds nothing else, whatever order, type or falsiness the values and ids have, and a query that is not a two-element tuple raises TypeError.',
  ['histories', 'inputs'], 'every history of index/reindex/unindex/clear over any orderable values and any (low, high) pair',
  'Tests use one ten-document population and a handful of ranges; reindex chains, shared values, falsy values and bucket splits are never combined.',
  [F], [('forward/reverse maps kept in step', F + ':FieldIndex.index_doc/unindex_doc'), ('range union', F + ':FieldIndex.apply')],
  [('forward map', 'value -> docids', F + ':_fwd_index'), ('reverse map', 'docid -> value', F + ':_rev_index')], ['FieldIndex.apply'])
p('C02', 'Field index statistics count exactly what is indexed',
  'After any history, the document count of a field index equals the number of documents currently indexed and its word count equals the number of distinct values those documents currently have. Reindexing with the same value changes nothing, unindexing an unknown id is a no-op, and after unindexing the index keeps no reference to that id or to a value nobody has any more.',
  ['histories'], 'every history of index/reindex/unindex/clear, including repeated and redundant calls',
  'Tests check the counters after a few single steps; drift needs repeated reindexing, shared values and no-op calls in combination.',
  [F], [('incremental counter', F + ':_num_docs'), ('empty value sets are dropped', F + ':FieldIndex.unindex_doc')],
  [('document counter', 'number of documents', F + ':_num_docs')], ['documentCount', 'wordCount', 'apply((None, None))'])
p('C03', 'Field index sort orders exactly the indexed subset, within the limit',
  'Sorting any collection of document ids by a field index yields every id of the collection that is indexed, once, in non-decreasing order of current value (non-increasing when reversed), and skips ids that are not indexed. With a limit n it yields the n first values of that order (all if fewer), and a limit below 1 raises ValueError; the relative size of collection, index and limit, the type of the values (None included) and the type of the collection make no difference.',
  ['inputs', 'histories'], 'all index contents, id collections (including unindexed ids), directions and limits, hence every internal sorting strategy',
  'Tests sort five documents and force the alternative strategies through private flags; strategy choice depends on size ratios that tests do not vary.',
  [S], [('strategy choice and three sort strategies', S + ':SortingIndexMixin.sort')], [], ['FieldIndex.sort'])
p('C04', 'Keyword search returns exactly the documents having all / any keywords',
  'After any history, a keyword search with operator and (the default) returns exactly the ids of the documents whose current keywords include every queried keyword, and with or exactly those including at least one; an unknown keyword matches nothing and an empty query matches no document. A plain string is one keyword, the query may be wrapped in a dict with an optional operator, and any other operator raises TypeError.',
  ['histories', 'inputs'], 'every history of index/reindex/unindex/clear and every query form, operator and keyword list',
  'Tests query one five-document population; partial keyword overlap across reindexes and large posting sets are not sampled.',
  [K], [('set difference on reindex', K + ':KeywordIndex.index_doc'), ('intersection smallest first / multiunion', K + ':KeywordIndex.search')],
  [('forward map', 'keyword -> docids', K + ':_fwd_index'), ('reverse map', 'docid -> keywords', K + ':_rev_index')], ['KeywordIndex.search', 'KeywordIndex.apply'])
p('C05', 'Keyword index bookkeeping matches the documents it holds',
  'After any history, the document count of a keyword index is the number of ids indexed with at least one keyword (after normalization), its word count the number of distinct keywords those documents currently have, and membership is reported for exactly those ids. Indexing with no keywords removes the document, unindexing an unknown id is a no-op, and after unindexing no reference to the id remains.',
  ['histories', 'inputs'], 'every history, with every iterable of keywords (lists, tuples, sets, iterators, duplicates, empty) and normalization',
  'Tests check counts after one population and after single-step changes; empty-after-normalization and iterator inputs are not sampled.',
  [K], [('counter changes', K + ':KeywordIndex.index_doc/unindex_doc'), ('empty keyword sets dropped', K + ':KeywordIndex.unindex_doc')],
  [('document counter', 'number of documents', K + ':_num_docs')], ['documentCount', 'wordCount', 'has_doc'])
p('C06', 'Case-insensitive keyword index ignores case on both sides',
  'In a case-insensitive keyword index, two keywords that differ only in case are the same keyword: search results, word counts and reindexing behave as if every keyword had been lower-cased both when indexed and when queried. This holds for single-string queries, lists, both operators and non-ASCII letters.',
  ['inputs', 'histories'], 'all spellings of keywords at index time and query time, after any history',
  'Tests use two or three spellings on a fresh population.',
  [K], [('normalization hook', K + ':CaseInsensitiveKeywordIndex.normalize'), ('normalization applied in index_doc and search', K)], [], ['search', 'wordCount'])
p('C07', 'Keyword storage representation never changes answers',
  'Whatever the tree threshold is, whenever it is changed, and whenever the index is optimized, a keyword index gives the same search results, counts and membership, and keeps doing so for later changes. Crossing the threshold in either direction loses and duplicates no document.',
  ['histories', 'configurations'], 'all thresholds, threshold changes and optimize calls interleaved with any history, posting sets from empty to several times the threshold',
  'Tests check the storage class of one word after one call; answers after conversions under continued updates are not checked.',
  [K], [('conversion at threshold', K + ':KeywordIndex._insert_forward'), ('bulk conversion', K + ':KeywordIndex.optimize')],
  [('posting set kind', 'Set below, TreeSet at or above threshold', K)], ['search', 'optimize'])
p('C08', 'Topic filters contain exactly the documents that matched when last indexed',
  'After any history, each filter of a topic index contains exactly the ids of the documents that were indexed while the filter was in the index, have not been unindexed or cleared since, and whose most recently indexed object satisfied the filter expression. An expression that fails to evaluate counts as not satisfied, and reindexing with an object that no longer matches removes the id.',
  ['histories', 'inputs'], 'every interleaving of index/reindex/unindex, filter addition, removal, replacement, expression change and clearing',
  'Tests index each document once; reindexing with changed objects and filter changes in between are never exercised.',
  [TF, TI], [('expression evaluation and membership update', TF + ':PythonFilteredSet.index_doc'), ('fan-out to filters', TI + ':TopicIndex.index_doc')],
  [('filter ids', 'docids matching', TF + ':_ids')], ['TopicIndex.search', 'FilteredSet.getIds'])
p('C09', 'Topic search combines filters exactly',
  'A topic search returns exactly the ids present in all (and, the default) or any (or) of the named filters that the index currently has, names of absent filters being ignored, and nothing when none is present. A string names one filter, the query may be a dict with an optional operator, a query that is not a string, list or tuple raises TypeError, any other operator raises TypeError, and repeating a query gives the same answer.',
  ['inputs', 'histories'], 'all filter populations, name lists, operators and query forms, repeated',
  'Tests use three disjoint filters, so intersections and overlaps are nearly unexercised, and no query is issued twice.',
  [TI], [('filter selection, intersection and union', TI + ':TopicIndex.search/apply')], [('filters', 'filter id -> filter', TI + ':_filters')], ['TopicIndex.search', 'TopicIndex.apply'])
p('C10', 'Lexicon word ids are a stable one-to-one numbering',
  'A lexicon gives every distinct word exactly one positive id that never changes, is never given to another word and never disappears, no matter how texts arrive; id 0 always means unknown. Looking words up by term, glob or word never creates ids, forward and reverse lookup agree, and the word count equals the number of distinct words. All this holds even if the word counter lags behind or is missing, as old versions stored it.',
  ['histories'], 'every sequence of source texts and lookups, with shared lexicons, reloading and damaged counters',
  'Tests check two-word lexicons; stability and uniqueness over long histories are not asserted.',
  [T + 'lexicon.py'], [('id allocation', T + 'lexicon.py:Lexicon._new_wid'), ('create-on-source only', T + 'lexicon.py:Lexicon.sourceToWordIds/termToWordIds')],
  [('word -> id', 'bijection', T + 'lexicon.py:_wids'), ('id -> word', 'inverse', T + 'lexicon.py:_words')], ['sourceToWordIds', 'termToWordIds', 'get_word', 'get_wid', 'wordCount'])
p('C11', 'Text analysis is exact and the same for documents and queries',
  'Splitters return exactly the maximal runs of word characters (with embedded glob marks kept in glob mode, and after lower-casing and replacing tags and named entities by a space for the HTML splitter), the case normalizer lower-cases each word, and the stop-word removers drop exactly the stop words (and, for the one that also drops them, one-character words), in order. The pipeline runs its elements in the given order, once, and treats the same text alike whether it is indexed or queried, given whole or as a list of strings.',
  ['inputs', 'configurations'], 'all strings and lists of strings, all pipelines of the supplied elements',
  'Tests use half a dozen literal strings; adjacent markup, unterminated tags, entities, glob marks and stop words in combination are not sampled.',
  [T + 'lexicon.py', T + 'htmlsplitter.py', T + 'stopdict.py'], [('word regexes', T + 'lexicon.py:Splitter, ' + T + 'htmlsplitter.py:MARKUP'), ('pipeline loop', T + 'lexicon.py:Lexicon')], [], ['Splitter.process', 'HTMLWordSplitter.process', 'Lexicon.parseTerms'])
p('C12', 'Glob patterns match exactly the words the shell rules say',
  'Expanding a glob pattern over a lexicon yields exactly the ids of the words matching it in full, where * stands for any run of characters, ? for exactly one, and every other character, special or not, for itself; each word appears once. A pattern without glob marks yields that word if known, and a pattern starting with a glob mark raises a query error.',
  ['inputs'], 'all patterns and all vocabularies, including words with punctuation from custom splitters',
  'Tests use three patterns on a three-word vocabulary without special characters.',
  [T + 'lexicon.py'], [('prefix scan and regular expression', T + 'lexicon.py:Lexicon.globToWordIds')], [], ['globToWordIds', 'search_glob'])
p('C13', 'Single-term and glob text search find exactly the containing documents',
  'After any history, searching a text index (Okapi or cosine) for a term returns exactly the ids of the documents whose current text contains a word of that term after analysis, and a glob search exactly those containing a word matching the pattern, each with a positive score. A term that analysis reduces to nothing yields None, and unknown or no longer used words match nothing.',
  ['histories', 'inputs'], 'every history over any texts, posting lists of any size growing and shrinking, empty documents included',
  'Tests index a few documents once; posting lists that cross the compact-storage cutoff and shrink again, and reindex overlaps, are not sampled.',
  [T + 'baseindex.py'], [('incremental postings', T + 'baseindex.py:BaseIndex._mass_add_wordinfo/_del_wordinfo/_reindex_doc'), ('search', T + 'baseindex.py:BaseIndex.search/search_glob')],
  [('postings', 'wid -> docid -> weight', T + 'baseindex.py:_wordinfo')], ['search', 'search_glob', 'TextIndex.apply'])
p('C14', 'Phrase search finds exactly the documents with the consecutive words',
  'After any history, searching for a phrase returns exactly the documents whose current analysed text contains the analysed words of the phrase consecutively and in order, however large the vocabulary and the word ids are. A phrase with an unknown word, or with no words left after analysis, matches nothing.',
  ['histories', 'inputs'], 'all documents and phrases, word ids of every encoded length, repeated words, phrases at the start and end of texts',
  'Tests use vocabularies of a few words, so only one-byte word codes are reached.',
  [T + 'baseindex.py', T + 'widcode.py'], [('encoded word list and substring search', T + 'baseindex.py:BaseIndex.search_phrase')],
  [('document words', 'docid -> encoded wid list', T + 'baseindex.py:_docwords')], ['search_phrase', 'TextIndex.apply'])
p('C15', 'Boolean text queries select exactly the documents they describe',
  'Applying a query to a text index returns exactly the documents selected by set logic over its parts: AND intersects, OR unites, AND NOT (or a leading hyphen) removes, nested by parentheses. Parts that analysis removes entirely have no influence, and evaluating a query changes neither the index nor the answer of any later query. The same holds for parse trees an application builds, of any shape; one with a NOT that is not a member of an AND raises QueryError.',
  ['inputs', 'histories'], 'all query trees over any document population',
  'Tests evaluate single-operator trees over two or three documents.',
  [T + 'parsetree.py', T + 'setops.py', T + 'textindex.py'], [('tree execution', T + 'parsetree.py:AndNode/OrNode.executeQuery'), ('apply', T + 'textindex.py:TextIndex.apply')], [], ['TextIndex.apply'])
p('C16', 'The query parser accepts exactly the documented language',
  'Every query string either parses to the tree the documented grammar gives it (keywords in any case, quoted and punctuated phrases, globs, leading hyphens, implied AND with negations last) or raises a parse error, and nothing else. Terms reduced to nothing by analysis are dropped and reported as ignored, a query with nothing positive left raises a parse error, and the terms of a tree are its non-negated terms in order, with repetitions.',
  ['inputs'], 'all query strings (nesting within the recursion limit of the interpreter)',
  'Tests check some fifty literal queries out of an infinite language; malformed nestings and stop words inside operators are barely sampled.',
  [T + 'queryparser.py', T + 'parsetree.py'], [('tokenizer and recursive descent', T + 'queryparser.py:QueryParser')], [], ['parseQuery', 'parseQueryEx', 'getIgnored', 'terms'])
p('C17', 'Text index bookkeeping matches the documents it holds',
  'After any history, a text index reports as document count the number of ids indexed (empty texts included), as word count the number of distinct words in their current texts, membership for exactly those ids, and for each id the exact word-id sequence of its current text; indexing returns the number of words. Unindexing an unknown id is a no-op, clearing leaves nothing, and an index stored with plain or missing counters, as by old versions, is brought up to date by the next new document.',
  ['histories'], 'every history over any texts, including shared lexicons and posting lists of any size',
  'Tests assert counters after single steps.',
  [T + 'baseindex.py', T + 'okapiindex.py', T + 'textindex.py'], [('length counters', T + 'baseindex.py:wordCount/documentCount'), ('per-document words', T + 'baseindex.py:_docwords')],
  [('counters', 'Length objects', T + 'baseindex.py')], ['documentCount', 'wordCount', 'has_doc', 'get_words'])
p('C18', 'Okapi scores equal BM25 over the current documents',
  'For every document an Okapi search returns, the score is the sum over the matched query words of tf times idf, with idf = ln(1 + N/n), tf = f(k1+1)/(f + k1(1-b + b*len/meanlen)), k1 = 1.2, b = 0.75, computed from the current documents only and up to single-precision rounding. It does not depend on how the index reached its state, nor on which scoring implementation is in use.',
  ['histories', 'inputs', 'configurations'], 'every history (reindex, unindex, clear, reuse) and every query, with the compiled and the Python scorer',
  'Tests compare a few scores in freshly built indexes; total length drift over a history is only checked once.',
  [T + 'okapiindex.py', T + 'okascore.c'], [('running total length', T + 'okapiindex.py:OkapiIndex._change_doc_len'), ('scoring loop', T + 'okascore.c:score')],
  [('total length', 'sum of document lengths', T + 'okapiindex.py:_totaldoclen')], ['search', 'search_phrase', 'search_glob', 'query_weight'])
p('C19', 'Cosine scores equal the documented cosine measure of the current documents',
  'For every document a cosine-index search returns, the score is the sum over matched query words of the word weight in the document, (1 + ln f) divided by the Euclidean norm of all its word weights, times ln(1 + N/n), computed from the current documents only and up to single-precision rounding. It does not depend on how the index reached its state.',
  ['histories', 'inputs'], 'every history and every query',
  'Tests only check that weights are floats in a one-document index.',
  [T + 'cosineindex.py', T + 'baseindex.py'], [('document weights', T + 'cosineindex.py:CosineIndex._get_frequencies'), ('reindex rewrites changed weights', T + 'baseindex.py:BaseIndex._reindex_doc')], [], ['search', 'query_weight'])
p('C20', 'Text query results are normalized: scores lie in (0, 1]',
  'For every query without globs, the query weight an index reports for its non-negated terms (counted with repetition) is an upper bound of every document score, so each score a text query returns is greater than 0 and at most 1 up to rounding. Returned scores are the raw scores divided by that query weight, so ranking is that of the raw scores.',
  ['inputs', 'histories'], 'all glob-free queries, with repeated terms, phrases, OR and NOT parts, over any population',
  'Tests check literal scores of a handful of queries and stubbed indexes.',
  [T + 'textindex.py', T + 'okapiindex.py', T + 'cosineindex.py'], [('query weight', T + 'okapiindex.py:query_weight, ' + T + 'cosineindex.py:query_weight'), ('normalization', T + 'textindex.py:TextIndex.apply')], [], ['TextIndex.apply', 'query_weight'])
p('C21', 'NBest keeps exactly the N best items',
  'After any sequence of additions (single or bulk) and removals, an N-best chooser lists the pairs it holds from best to worst score, pairs of equal score in the order they were added. An addition to a chooser that is not full is always kept; an addition to a full one replaces the pair listed last if its score is strictly higher and is ignored otherwise, so that without removals the chooser holds the N best pairs it was given. Removing the smallest returns and forgets the pair listed last, raises IndexError when there is none, and length and capacity are reported exactly.',
  ['histories'], 'every sequence of add, addmany, pop_smallest and getbest, for every capacity and tie pattern',
  'Tests feed fifty distinct scores or ten equal ones and never mix additions and removals.',
  ['src/zope/index/nbest.py'], [('sorted insertion with eviction', 'src/zope/index/nbest.py:NBest.addmany')], [('scores/items', 'parallel ascending lists', 'src/zope/index/nbest.py')], ['getbest', 'pop_smallest', '__len__', 'capacity'])
p('C22', 'Weighted set operations are exact for any number of inputs',
  'The weighted union (intersection) of a list of weighted mappings contains exactly the keys in any (all) of them, each with the sum of weight times value over the inputs that have it, regardless of the order, sizes, kinds and number of inputs. The intersection ignores None entries, an empty list gives an empty mapping, a single input is scaled by its weight, and the inputs are left unchanged.',
  ['inputs'], 'all lists of mappings and weights, both integer families',
  'Tests use pairs and one many-input case with a regular structure.',
  [T + 'setops.py', 'src/zope/index/nbest.py'], [('size-ordered merging', T + 'setops.py:mass_weightedUnion/mass_weightedIntersection')], [], ['mass_weightedUnion', 'mass_weightedIntersection'])
p('C23', 'Word-id coding round-trips and aligns',
  'Encoding a list of word ids between 0 and 2**28 - 1 and decoding it gives the same list back, the encoding of a concatenation is the concatenation of the encodings, and only the first character of each encoded id has the high bit set, so an encoded id is recognizable anywhere in a longer code. Smaller ids never take more characters than larger ones, at most four.',
  ['inputs'], 'all lists of ids in range, in particular across the length boundaries 2**7, 2**14, 2**21 and 2**28',
  'Tests sample boundary ids one at a time and random lists.',
  [T + 'widcode.py'], [('tables and slow path', T + 'widcode.py:encode/decode')], [], ['widcode.encode', 'widcode.decode'])
p('C24', 'Rice coding round-trips',
  'Encoding a list of positive integers with any bit parameter from 0 to 16 (each item as the documented unary and binary part) and decoding it gives the same list, the code can be extended item by item with the length always right, and delta-encoding a strictly increasing non-empty list of integers and decoding it gives the same list. Parameters outside 0..16 and items below 1 are refused with ValueError, and the bit array underneath holds exactly the bits appended or set.',
  ['inputs'], 'all parameters and all lists of positive integers; all strictly increasing lists',
  'Tests round-trip random lists for parameters 1..16 only and delta-code only runs of consecutive integers.',
  [T + 'ricecode.py'], [('bit-level coding', T + 'ricecode.py:RiceCode'), ('delta coding', T + 'ricecode.py:encode_deltas/decode_deltas')], [], ['encode', 'RiceCode.tolist', 'encode_deltas', 'decode_deltas'])
p('C25', 'Transactions: committed changes persist completely, aborted ones leave no trace',
  'When indexes are stored in an object database, every change made by a committed transaction is seen in full by later connections and after cache eviction, and after an abort or a rollback to a savepoint the index answers exactly as it did at that point. This holds for every operation of every kind of index, at every point of any history where the abort, rollback, eviction or reload happens.',
  ['crash_points', 'histories'], 'every history of operations with commits, aborts, savepoint rollbacks, cache eviction and reconnection at every position',
  'The tests never store an index in a database, so unregistered mutations of non-persistent parts are invisible to them.',
  [F, K, TI, TF, T + 'baseindex.py', T + 'okapiindex.py', T + 'lexicon.py'], [('persistent containers and explicit re-assignment of plain dicts', T + 'baseindex.py'), ('persistent trees', F)], [], ['all query methods, through a second connection'])
p('C26', 'Concurrent transactions never lose or corrupt index updates',
  'When several transactions index, reindex or unindex documents (or optimize a keyword index) concurrently, each either commits or fails with a conflict error, and after each commit the index answers exactly as if the document changes of the committed transactions had been made one after another; changes of failed transactions are absent (in a topic index, which keeps no record of documents, a document change is its entering or leaving a filter). A transaction without concurrent commits, or that only queries, never fails, and only transactions that change something store anything.',
  ['schedules'], 'all interleavings of two or three sessions of index operations with commits, on field, keyword, topic and text indexes sharing a lexicon',
  'The tests are single-session; no test uses transactions.',
  [F, K, TI, TF, T + 'baseindex.py', T + 'lexicon.py'], [('conflict-resolving containers and counters', F + ', ' + K), ('re-assignment forces conflicts', T + 'baseindex.py'), ('counter reload before id allocation', T + 'lexicon.py:sourceToWordIds')], [], ['all query methods, after each commit'])
p('C27', 'Rejected updates leave the index unchanged',
  'When indexing a document raises because the value cannot be stored (a value not comparable with those present, keywords that cannot be compared, a plain string given as keywords, a text the analysis pipeline fails on) or because the document id is not an integer within the range of the index, every answer of the index stays as it was before the call. Later operations work as if the rejected call had never been made.',
  ['fault_sequences', 'inputs'], 'every index content and every rejected call, for new and already indexed documents, followed by any further history',
  'Tests assert that some calls raise, never that the index is unchanged afterwards.',
  [F, K, T + 'baseindex.py', T + 'okapiindex.py'], [('order of validation and mutation', F + ':index_doc, ' + K + ':index_doc, ' + T + 'baseindex.py:index_doc')], [], ['all query methods after a raising index_doc'])
p('C28', 'Queries are pure: results and arguments are independent of the index',
  'A query or sort never changes the index or the objects passed to it, and asking twice gives the same answer. Later changes to the index do not alter a result already returned, and changing a returned result does not alter any later answer.',
  ['histories', 'inputs'], 'all query kinds and forms on all index kinds, with updates before and after reading or changing the result',
  'Tests read each result once, immediately, and never reuse a query object.',
  [F, K, TI, T + 'textindex.py', T + 'parsetree.py'], [('fresh result sets', F + ':apply, ' + K + ':search, ' + TI + ':search, ' + T + 'textindex.py:apply')], [], ['apply', 'search', 'sort'])
p('C29', 'Indexes forget their history',
  'Any two histories that leave the same documents indexed with the same values leave two indexes of the same kind and configuration that give the same answers, including counts and scores, as does an index into which just those documents were put once, in any order. In particular, after clear, or after unindexing everything, an index behaves like a new one.',
  ['histories'], 'all pairs of histories ending in the same contents, for all index kinds',
  'Tests build each index along one path only and compare with literals.',
  [F, K, TI, T + 'baseindex.py', T + 'okapiindex.py', T + 'cosineindex.py'], [('incremental maintenance equals recomputation', T + 'baseindex.py:_reindex_doc'), ('clear resets all state', T + 'okapiindex.py, ' + F + ', ' + K)], [], ['all query methods'])
p('C30', 'Answers do not depend on the integer family or the build',
  'The 32-bit and 64-bit variants of each index, and installations with and without the compiled extension, give the same answers for the same calls, and the 64-bit variant does so for document ids anywhere in the 64-bit range, negative and zero ids included. Results carry ids unchanged.',
  ['configurations', 'inputs'], 'all index kinds, both families, compiled and pure-Python builds, ids at and across the range limits',
  'Tests run small ids through both families and never compare variants with each other; the pure-Python build is not run here.',
  [F, S, K, TI, T + 'baseindex.py', T + 'setops.py', T + 'parsetree.py', T + 'okapiindex.py', T + 'okascore.c'], [('family attribute passed to every container', F + ', ' + K + ', ' + T + 'baseindex.py'), ('scorer selection', T + 'okapiindex.py')], [], ['all query methods'])
p('C31', 'Concurrent additions of different documents do not conflict',
  'When several concurrent transactions only add documents, each with an id no other one uses, to a field, keyword or topic index, and the values, keywords or filters of the new documents already had documents before, all of them commit, and the result holds all the additions. Only the splitting of a full tree node, or the conversion of a keyword set to a tree, may make one of them fail.',
  ['schedules'], 'all populations below the size of a tree node, all sets of concurrent additions, all commit orders',
  'No test uses transactions; that counters and sets are objects able to merge concurrent changes shows in no single-session test.',
  [F, K, TF, TI], [('Length counters', F + ':_num_docs, ' + K + ':_num_docs'), ('per-value sets changed in place', F + ':index_doc, ' + K + ':_insert_forward, ' + TF + ':PythonFilteredSet.index_doc')],
  [('counters', 'Length objects', F + ', ' + K)], ['commit of each transaction', 'all query methods afterwards'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
