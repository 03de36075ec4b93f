PKG = 'sciencebeam_trainer_grobid_tools/'
TEI = PKG + 'structured_document/grobid_training_tei.py'
ANN = PKG + 'annotation/annotator.py'
PIPE = PKG + 'auto_annotate_utils.py'
A = PKG + 'annotation/'


def prop(pid, title, statement, over, text, why, files, mechanism, **kw):
    p = {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    }
    p.update(kw)
    return p


PROPERTIES = [
    prop(
        'D01', 'Annotating a document never changes its text',
        'When a training document is loaded, annotated in any way and saved, the saved document '
        'contains exactly the characters of the source document, in the same order, with nothing '
        'lost, repeated or invented (unless removal of untagged text was asked for). Everything '
        'outside the annotated part - elements, attributes and text - and the attributes of the '
        'element that holds the annotated part are unchanged.',
        ['inputs', 'configurations'],
        'for every training document with one annotated part, every annotator decision, mapping '
        'and preservation option',
        'tests compare a few short documents; text is lost or moved only for particular '
        'combinations of nesting, blanks, line breaks, tags and options',
        [TEI, ANN],
        [('reader', TEI + ' _iter_extract_lines_from_element'),
         ('writer', TEI + ' _lines_to_tei, _updated_tei_with_lines')]
    ),
    prop(
        'D02', 'Annotating a document never changes its lines',
        'The saved document has the same lines as the source: the same line breaks, each between '
        'the same pieces of text, whatever elements are opened or closed around them (a trailing '
        'line break at the very end of the annotated part may be dropped).',
        ['inputs', 'configurations'],
        'for every training document with one annotated part (with or without namespace), every '
        'annotator decision and option',
        'tests use one or two lines without nesting across them; a lost or doubled line break '
        'depends on where it lies relative to elements, blanks and namespaces',
        [TEI],
        [('reader', TEI + ' _iter_extract_lines_from_element'), ('writer', TEI + ' _lines_to_tei')]
    ),
    prop(
        'D03', 'Every token is saved inside exactly the elements its tag stands for',
        'In the saved document every piece of text lies in exactly the chain of elements that its '
        'tag (and sub tag, if it belongs to the tag) is mapped to, untagged text in the default '
        'element if there is one. A token that begins an annotation begins a new element, and a '
        'token that continues the annotation of the token before it stays in the same element, '
        'also across line breaks.',
        ['inputs', 'histories', 'configurations'],
        'for every document and every sequence of tag and sub tag assignments, with new and '
        'preserved tags mixed',
        'tests sample a few sequences of tags; the element structure depends on the whole history '
        'of begin/inside prefixes, blanks, sub tags and preserved tags before a token',
        [TEI],
        [('writer', TEI + ' _lines_to_tei'), ('tag changes', TEI + ' set_tag, set_tag_only'),
         ('mapping', TEI + ' _get_tag_required_path')]
    ),
    prop(
        'D04', 'Existing mark-up is read back as it was written, and re-saving is stable',
        'Loading a document recovers for every token the annotation it is in, with begin and '
        'inside positions, at both levels (annotation and sub annotation), through nested '
        'elements and line breaks. Loading and saving an annotated document again without '
        'changing anything keeps the same annotations around the same text, for annotations '
        'nested at most two levels deep.',
        ['inputs', 'histories'],
        'for every training document and mapping; for every document the tool itself wrote',
        'tests read hand-written one-level snippets; nested elements, repeated elements, blanks at '
        'element borders and documents produced by earlier runs are not sampled together',
        [TEI],
        [('reader', TEI + ' _iter_extract_lines_from_element, TokenWriter'),
         ('preserved tags', TEI + ' _preserve_current_tags'), ('writer', TEI + ' _lines_to_tei')]
    ),
    prop(
        'D05', 'The options decide exactly which existing annotations are kept',
        'Before annotating, an existing annotation is kept if and only if the options say so: '
        'nothing is kept unless existing annotations are to be preserved; annotations of fields '
        'about to be annotated are not kept unless always preserved; with always-preserved fields '
        'only those are kept. Sub annotations follow their own options independently, and nothing '
        'else of the document is changed by this.',
        ['inputs', 'configurations'],
        'for every document and every combination of preserve, fields, always-preserved fields, '
        'preserve-sub and excluded sub fields',
        'the options interact (field sets, two levels, prefixes); tests try single options on '
        'one-token documents',
        [ANN, TEI],
        [('which tags are kept', ANN + ' annotate_structured_document'),
         ('preserved tags', TEI + ' _preserve_current_tags')]
    ),
    prop(
        'P01', 'Replacing and grouping tags changes the listed tags and nothing else',
        'Replacing tags turns every annotation whose name is listed into the listed name (or no '
        'annotation) with the same begin/inside position, wherever it occurs, new or preserved, '
        'and leaves every other annotation, sub annotation and text as it is. Grouping sub tags '
        'only fills unannotated text that follows a member of the group, with the tag of the '
        'group, and changes no existing annotation.',
        ['inputs', 'configurations'],
        'for every document, every mixture of new and preserved tags and every table of '
        'replacements or groups',
        'tests have one line with one or two tags; swaps, preserved tags and several lines are not '
        'combined',
        [A + 'replace_tags_annotator.py', A + 'merge_group_tags_annotator.py'],
        [('replace', A + 'replace_tags_annotator.py'), ('group', A + 'merge_group_tags_annotator.py')]
    ),
    prop(
        'P02', 'Expanding to untagged lines only tags text that had no annotation',
        'Expanding annotations to the untagged text before (or after) them gives every untagged '
        'token the annotation of its nearest annotated neighbour on that side if that annotation is '
        'one of the enabled ones, and leaves it untagged otherwise. No existing annotation gets '
        'another name, and text and sub annotations stay the same. Text expanded to in front of an '
        'annotation begins it.',
        ['inputs', 'configurations'],
        'for every document, tag assignment (new and preserved) and set of enabled tags',
        'tests use a few lines with one tag; runs of untagged text between different enabled and '
        'disabled annotations are not sampled',
        [A + 'expand_to_untagged_lines_annotator.py'],
        [('expand', A + 'expand_to_untagged_lines_annotator.py')]
    ),
    prop(
        'P03', 'Removing untagged text keeps exactly the tagged text, once and in order',
        'When removal of untagged text was asked for, the remaining document consists of exactly '
        'the tagged tokens, each once, in their order, on their lines, with their tags; blanks '
        'between tagged text stay.',
        ['inputs'],
        'for every document and tag assignment over any number of lines and pages',
        'tests have one line; tokens carried over between lines need several lines',
        [A + 'remove_untagged_annotator.py'],
        [('remove', A + 'remove_untagged_annotator.py')]
    ),
    prop(
        'L01', 'Line numbers are recognised exactly by the documented rules',
        'A token is tagged as line number only if it is a positive number that starts its line and '
        'belongs to an increasing series down the page with gaps no larger than allowed; a page '
        'gets line numbers only if there are at least as many as the minimum and the ratio to the '
        'lines is reached; all members of accepted series are tagged. All other tags, sub tags and '
        'the text stay as they were.',
        ['inputs', 'configurations'],
        'for every page of lines (with running, repeated, gapped, misplaced and foreign numbers) '
        'and all thresholds',
        'tests count up from one without gaps; what counts as a series depends on the whole page',
        [A + 'line_number_annotator.py', PIPE],
        [('series', A + 'line_number_annotator.py'), ('options', PIPE + ' AnnotatorConfig')]
    ),
    prop(
        'S01', 'Segmentation assigns every line to exactly the segment the rules give',
        'Every line becomes part of exactly one segment: the segment configured for its prevailing '
        'annotation, page for page numbers (preserved, or increasing between known ones), headnote '
        'for texts repeated on several lines near the start, the surrounding segment for lines '
        'between lines of the same front, reference or annex segment, and body otherwise (or none, '
        'if existing annotations are preserved). Front parts beyond the configured line are no '
        'front. The text, its order and sub annotations stay the same.',
        ['inputs', 'configurations'],
        'for every sequence of annotated lines and every segmentation configuration',
        'tests check one rule at a time; the rules work on each other\'s result and depend on the '
        'whole document',
        [A + 'segmentation_annotator.py', 'config/segmentation.conf'],
        [('segmentation', A + 'segmentation_annotator.py SegmentationAnnotator')]
    ),
    prop(
        'X01', 'Repairing malformed XML yields well-formed XML with the same content',
        'The repair of documents with missing or superfluous end tags always returns well-formed '
        'XML. It keeps all text, comments, start tags and attributes in their order, keeps elements '
        'that were closed where they were closed, closes each unclosed element no later than its '
        'parent and drops only end tags that close nothing. A well-formed document keeps its '
        'structure.',
        ['inputs'],
        'for every sequence of start tags, end tags, empty elements, text, entities, comments and '
        'declarations',
        'tests repair two snippets; which end tag is missing or superfluous, and where, has '
        'unboundedly many combinations',
        [PKG + 'utils/xml.py', PKG + 'utils/tei_xml.py'],
        [('repair', PKG + 'utils/xml.py'), ('loading', TEI + ' load_document')],
    ),
    prop(
        'B01', 'Files of a batch are processed independently of each other',
        'What a run writes for a file is byte by byte what processing that file alone writes, '
        'whatever other files are in the batch, however many workers (threads, processes or a beam '
        'pipeline) take part and however their work interleaves. Source files stay unchanged and no '
        'temporary files or other outputs remain. A limit processes exactly that many files.',
        ['inputs', 'schedules', 'configurations'],
        'for every batch of files, number and kind of workers and every interleaving of their work',
        'tests process one file with one worker; shared state shows only for particular '
        'interleavings',
        [PIPE, ANN],
        [('pipelines', PIPE + ' AbstractAnnotatePipelineFactory.run'),
         ('source copies', ANN + ' annotate_structured_document')]
    ),
    prop(
        'B02', 'One bad file never affects the others and is never silently dropped',
        'If a file cannot be processed, the run reports an error unless errors are to be skipped; in '
        'either case every other file of the batch is processed completely, and the bad file gets '
        'neither an output nor loses an earlier one. With skipping, the run succeeds.',
        ['inputs', 'fault_sequences', 'schedules'],
        'for every batch with any subset of unprocessable files, every kind of damage, with one or '
        'more workers',
        'tests do not run batches with failing files',
        [PIPE],
        [('error handling', PIPE + ' annotate_document, run_local_pipeline')]
    ),
    prop(
        'B03', 'An interrupted run leaves only complete files and can be resumed',
        'If a run is killed at any moment, or writing fails, every output file is either complete or '
        'as it was before. Resuming leaves existing outputs alone and produces all missing ones, so '
        'that the outcome is the one of an uninterrupted run.',
        ['crash_points', 'fault_sequences', 'histories'],
        'for every moment of interruption (line of code or file operation), every amount of space '
        'left, and any earlier outputs',
        'tests never interrupt a run',
        [PIPE, TEI, ANN],
        [('saving', TEI + ' save_document'), ('resume', PIPE + ' get_source_file_list_or_none')]
    ),
    prop(
        'Q02', 'Documents failing quality checks never get into the training data',
        'A document that fails the quality checks is never written to the output path; it is '
        'written to the path for failed documents if one is given and nowhere otherwise. A document '
        'that passes is written to the output path only. A failing document is no error and does '
        'not disturb the other files.',
        ['inputs', 'configurations'],
        'for every batch of passing and failing documents and every combination of paths, resume '
        'and error options',
        'tests check the two paths for single documents in isolation',
        [ANN, PIPE],
        [('routing', ANN + ' annotate_structured_document'), ('options', PIPE)]
    ),
    prop(
        'M01', 'Matching only labels unlabelled text, with the fields of the article',
        'Matching a document with the values of an article never changes its text, never changes or '
        'removes a label the text already had (it may only join it with a neighbour of the same '
        'name), gives new labels only to text without label, and only names of fields of the '
        'article. Each occurrence begins with one begin label and goes on with inside labels. '
        'Searching goes on where the field before was found, within the configured number of '
        'lines, and over the whole document for a new block; a field not found in one pass is '
        'tried again as long as passes find anything, and matching always ends.',
        ['inputs', 'configurations', 'histories'],
        'for every document with any earlier labels, every list of field values and every setting of '
        'look-ahead, blocks, prefixes, alternative spellings and multi-part values',
        'tests match a few documents with one or two fields; interference of fields, earlier labels, '
        'passes and blocks is combinatorial',
        [A + 'simple_matching_annotator.py', A + 'matching_utils.py'],
        [('matching', A + 'simple_matching_annotator.py process_target_annotations'),
         ('pending text', A + 'matching_utils.py PendingSequences')]
    ),
    prop(
        'M02', 'A field value that stands in the text is found and labelled in full',
        'If the value of a field stands in the unlabelled text, up to letter case, kind of dashes '
        'and quotes, white space, line breaks and a small share of damaged characters, then it is '
        'labelled from its first to its last undamaged token and nothing outside of it is (without '
        'extension to lines), wherever it stands and however long the text is; also its alternative '
        'spelling, or a value that is torn into two of the allowed number of parts, part by part; and a '
        'label or heading in front of it that the prefix pattern of the field describes.',
        ['inputs'],
        'for every text and value, at every position, across line and search window boundaries',
        'tests use short texts that fit into one search window; where windows, lines and parts fall '
        'depends on the document',
        [A + 'simple_matching_annotator.py', A + 'matching_utils.py', PKG + 'utils/fuzzy.py'],
        [('matching', A + 'simple_matching_annotator.py'), ('search', PKG + 'utils/fuzzy.py')]
    ),
    prop(
        'M03', 'Approximate search reports only text similar enough, and the best of it',
        'A search result is a range inside the searched text whose matching characters are equal and '
        'in order and make up at least the threshold of the needle plus the gaps (where asterisks, dots '
        'after letters and commas after dots that only one of the two has do not count); it is a best '
        'local alignment of the searched window. A text that contains the needle is never reported as not '
        'matching. Iterating yields successive, non-overlapping occurrences and misses no exact one.',
        ['inputs'],
        'for every text, needle and threshold',
        'tests cover a dozen pairs of strings',
        [PKG + 'utils/fuzzy.py'],
        [('search', PKG + 'utils/fuzzy.py fuzzy_search, fuzzy_search_chunks')]
    ),
    prop(
        'M04', 'Extending labels to lines fills only gaps and line ends as configured',
        'Extending works line by line: unlabelled text between two stretches of the same field is '
        'labelled if merging is enabled for the field; unlabelled text at the end or the beginning '
        'of a line if extending is enabled for the neighbouring field and its stretch is longer. '
        'Such text becomes part of one occurrence (one begin label). Nothing else changes: no label '
        'is lost, renamed or moved to another line.',
        ['inputs', 'configurations'],
        'for every line of labelled and unlabelled tokens and every choice of options per field',
        'tests cover some lines; the options interact with what is on both sides of a gap',
        [A + 'simple_matching_annotator.py'],
        [('extension', A + 'simple_matching_annotator.py get_extended_line_token_tags')]
    ),
    prop(
        'M05', 'Sub annotations are placed inside their field and never alter main labels',
        'A sub value is labelled at its first occurrence inside the labelled field that has no sub '
        'annotation yet, in the order of the sub values, and nowhere else. When only sub annotations '
        'are requested, every token has the same main label afterwards as before (current or '
        'preserved), preserved sub annotations are dropped unless they are to be kept, and new sub '
        'labels are names of sub fields of the article.',
        ['inputs', 'configurations'],
        'for every document with any current and preserved labels, every list of values with sub '
        'values and every setting',
        'the sub-only annotator has no test; repeated and overlapping sub values depend on order',
        [A + 'simple_matching_annotator.py', A + 'sub_tag_annotator.py'],
        [('sub values', A + 'simple_matching_annotator.py process_sub_annotations'),
         ('sub only', A + 'sub_tag_annotator.py')]
    ),
    prop(
        'M06', 'The complex matcher labels values standing in lines, and nothing but values',
        'Matching with the complex matcher never changes text or existing labels, and labels only '
        'words of the values of the field it names. A value that stands in the unlabelled text once, '
        'within a line or as whole lines, and shares no words with other text, is labelled in full: '
        'wherever it is, whatever lines (even ones of just symbols) are around it, letters of any case '
        'and few of them damaged; one begin label, then inside labels; sub values too. Values of a list '
        'are found within the allowed gap of each other, bonding fields within the gap of earlier ones '
        'of their name; "multiple" labels all occurrences within the gap, otherwise just one; a field '
        'that requires the next one is labelled only together with it.',
        ['inputs', 'configurations'],
        'for every document, earlier labels, list of values, gap, threshold and flags of the fields',
        'tests match single values in one to three lines; bonding, gaps and lists across several lines '
        'and values are not sampled together',
        [PKG + 'core/annotation/matching_annotator.py', PKG + 'core/annotation/fuzzy_match.py'],
        [('matching', PKG + 'core/annotation/matching_annotator.py MatchingAnnotator.annotate'),
         ('similarity', PKG + 'core/annotation/fuzzy_match.py FuzzyMatchResult')]
    ),
    prop(
        'R01', 'Tidying references keeps every part and only grows parts by what belongs to them',
        'Post-processing of references looks at each reference on its own. Renamed parts are renamed '
        'everywhere; "et al" becomes part of the authors or editors in front of it; a dot directly '
        'behind an author becomes part of it; an identifier includes the word and colon directly in '
        'front of it that announces it (of its own kind where configured); neighbouring stretches of '
        'a part become one. No token of a part loses its part, text without a part gains one only by '
        'these rules, nothing moves between references and main labels stay.',
        ['inputs', 'configurations'],
        'for every document, labelling and choice of the parts each rule is enabled for',
        'tests cover one rule at a time on one reference; the rules feed each other',
        [A + 'reference_annotator.py', PKG + 'auto_annotate_reference.py'],
        [('rules', A + 'reference_annotator.py ReferencePostProcessingAnnotator'),
         ('default rules', PKG + 'auto_annotate_reference.py')]
    ),
    prop(
        'Q01', 'Quality checks pass exactly the documents whose checked fields are labelled well',
        'A document passes iff each required field has a value in the article, and each checked field '
        'with a value is found, similar enough, among the texts labelled with it (with its segment, '
        'for the segmentation tool). A field with several values, or that is to be found but is '
        'labelled nowhere, makes the document fail. Asking for nothing always passes. Checking never '
        'changes the document and gives a verdict for every document and article.',
        ['inputs', 'configurations'],
        'for every labelled document, list of article values and set of checked and required fields',
        'tests check a single field; damaged values around the threshold and missing fields are not sampled',
        [A + 'checks.py', PKG + 'auto_annotate_segmentation.py'],
        [('verdict', A + 'checks.py is_structured_document_passing_checks'),
         ('segmentation', PKG + 'auto_annotate_segmentation.py '
          'is_segmentation_structured_document_passing_checks')]
    ),
    prop(
        'T01', 'The values of a field are exactly the article text its mapping selects',
        'For every article and mapping, each element selected by a field yields one annotation with '
        'that field, its options and sub values, made of the text of the element: without ignored '
        'elements and comments, words of neighbouring elements kept apart; or, where children are '
        'given, one value per selected child, joined values (only if all their parts are there), page '
        'ranges (numbers only), and the remaining text if asked for. Annotations come in order of '
        'priority, then of the article; several values in order of length. The article stays unchanged.',
        ['inputs', 'configurations'],
        'for every article tree and every combination of mapping options',
        'tests cover plain text and ignored elements only; the other options are combined in the '
        'shipped configuration without a test',
        [A + 'target_annotation.py', PKG + 'core/annotation/target_annotation.py', PKG + 'utils/xml.py'],
        [('extraction', A + 'target_annotation.py xml_root_to_target_annotations'),
         ('children', PKG + 'core/annotation/target_annotation.py extract_children'),
         ('text', PKG + 'utils/xml.py iter_text_content_and_exclude')]
    ),
    prop(
        'T02', 'Selecting fields, sub fields or overrides changes just what was asked for',
        'With selected fields the annotations are those of the full mapping with these names; with '
        'selected sub fields they are the same but for the sub values of other sub fields; an override '
        'replaces exactly that option of that field. Nothing selected means everything. Options of '
        'what stays selected keep their effect, whatever the order and sections of the file.',
        ['inputs', 'configurations'],
        'for every mapping file, article and selection',
        'tests cover three tiny dictionaries and no file',
        [PKG + 'auto_annotate_utils.py', PKG + 'core/annotation/target_annotation.py'],
        [('selection', PKG + 'auto_annotate_utils.py get_xml_mapping_and_fields'),
         ('file', PKG + 'core/annotation/target_annotation.py parse_xml_mapping')]
    ),
    prop(
        'W01', 'Downloading copies each complete pair of files under the names asked for',
        'The entries at the same place of both file lists are a pair. Exactly the pairs of which both '
        'files exist (of the first "limit" ones) are copied, each file with its own content, to its '
        'output path under the name its pattern gives: directory, file name, name and extension '
        '(without .gz) of itself, its document or target, and the index among the copied pairs. '
        'Outputs are compressed iff named .gz. Base paths, relative or absolute, only '
        'shorten names; by default the base is the directory of the list. Sources and anything outside '
        'the output paths are never written. Lists of different length, or without a complete pair, '
        'are refused before anything is copied.',
        ['inputs', 'configurations', 'schedules'],
        'for all lists, missing files, patterns that give different names, and any number of threads',
        'tests copy one pair with the default pattern',
        [PKG + 'download_source_files.py'],
        [('pairs', PKG + 'download_source_files.py filter_file_pair_exists'),
         ('names', PKG + 'download_source_files.py get_relative_output_file_list')]
    ),
    prop(
        'J01', 'Fixing the references of an article changes markup only, never its text',
        'Whatever the references contain, fixing them keeps every character of the article and its '
        'order; outside the identifiers, links and titles being fixed each character stays within the '
        'same elements, elements of other kinds are neither added, dropped nor altered, and nothing '
        'outside the references changes.',
        ['inputs'],
        'for every article and every nesting of elements and comments within its references',
        'tests use flat references with one identifier; text after removed elements and nested elements '
        'are not sampled',
        [PKG + 'fix_jats_xml.py'],
        [('annotations', PKG + 'fix_jats_xml.py change_annotations_to_matching_text'),
         ('additions', PKG + 'fix_jats_xml.py add_annotation_to_reference_element_if_matching'),
         ('titles', PKG + 'fix_jats_xml.py remove_surrounding_quotes_from_element')]
    ),
    prop(
        'J02', 'Fixed references annotate exactly the identifiers, links and titles in them',
        'After fixing, an element for a doi, pmid, pmcid or pii holds just such an identifier (no label, '
        'no punctuation around it, no second one), or is dropped if there is none; a missing '
        'identifier that is written in the text (or, for pmid, pmcid and WOS, a comment) of a mixed '
        'citation gets one element, the first place it is found; a doi that completes a url becomes a '
        'link; joined links are separated; titles lose their quotes and what follows them.',
        ['inputs'],
        'for every reference made of text, titles, links, comments and identifiers',
        'tests give one example for each written form; their combinations and order are not sampled',
        [PKG + 'fix_jats_xml.py'],
        [('steps', PKG + 'fix_jats_xml.py fix_reference'),
         ('finding', PKG + 'fix_jats_xml.py find_doi_start_end'),
         ('links', PKG + 'fix_jats_xml.py fix_ext_link')]
    ),
    prop(
        'J03', 'Fixing a folder of articles writes each one, well-formed, or reports it',
        'For any number of workers, threads or processes, and every way of naming the sources, each '
        'source is written to the same relative path of the output, well-formed and with the changed '
        'references counted and listed in its metadata; leading white space and unknown daggers are '
        'repaired, compressed files are read and written compressed; a source that cannot be read is '
        'reported by a failing run without keeping the others from being written; sources are never '
        'touched.',
        ['inputs', 'configurations', 'schedules', 'fault_sequences'],
        'for every set of files, encodings, malformed or broken ones among them, and every selection',
        'tests run the tool on one well-formed file',
        [PKG + 'fix_jats_xml.py', PKG + 'utils/xml.py', PKG + 'utils/io.py'],
        [('run', PKG + 'fix_jats_xml.py FixJatsProcessor'),
         ('file', PKG + 'fix_jats_xml.py fix_jats_xml_file'),
         ('reading', PKG + 'utils/io.py auto_download_input_file')]
    ),
    prop(
        'A01', 'Each tool writes exactly the document its options, mapping and article stand for',
        'For every annotation tool, any combination of its options and any existing mark-up: the text '
        'of the asked for fields (and sub fields) found in the document is put in the elements the tool '
        'defines for them, fields it has no element for in a note named after them; other text and '
        'existing elements are kept, dropped or rewritten as the options say; a tool that looks inside '
        'of elements leaves these elements as they are unless asked to find them; always preserved fields stay; '
        'no other elements are written and, unless removing invalid text is asked for, no text is lost.',
        ['inputs', 'configurations'],
        'for all documents, articles, mappings and combinations of options of the eight tools',
        'tests run each tool on one or two documents per option; combinations of options, mark-up and '
        'post-processing steps are not sampled',
        [PKG + 'auto_annotate_header.py', PKG + 'auto_annotate_segmentation.py',
         PKG + 'auto_annotate_fulltext.py', PKG + 'auto_annotate_figure.py', PKG + 'auto_annotate_table.py',
         PKG + 'auto_annotate_reference.py', PKG + 'auto_annotate_reference_segmenter.py',
         PKG + 'auto_annotate_affiliation_address.py', PKG + 'auto_annotate_utils.py'],
        [('fields', PKG + 'auto_annotate_utils.py get_xml_mapping_and_fields'),
         ('steps', PKG + 'auto_annotate_fulltext.py _get_annotator'),
         ('existing mark-up', PKG + 'annotation/annotator.py _preserve_tag_fn')]
    ),
    prop(
        'A02', 'With the shipped configuration each part of an article gets its own element',
        'For any JATS article and a document that contains its text, each part on lines of its own, the '
        'tools with their default options and the configuration in config/ put every word in the element '
        'that stands for the part it is from: title, authors, affiliations, abstract, keywords and other '
        'front matter (header), front, body, annex, acknowledgment and references (segmentation), headings, '
        'paragraphs and their citations, boxes, lists, figures, tables and appendices (fulltext), label and '
        'description (figure, table), parts of the address (affiliation), author, title, journal, pages, '
        'identifiers (reference). A part is one element, two parts are two, text that is not from the '
        'article is labelled as other.',
        ['inputs', 'configurations'],
        'for all articles made of these parts and all documents with their text',
        'tests use their own mappings and single fields; none runs the shipped mapping on an article',
        ['config/xml-mapping.conf', 'config/segmentation.conf', PKG + 'annotation/target_annotation.py',
         PKG + 'annotation/simple_matching_annotator.py', PKG + 'auto_annotate_fulltext.py',
         PKG + 'auto_annotate_reference.py', PKG + 'auto_annotate_affiliation_address.py',
         PKG + 'structured_document/grobid_training_tei.py'],
        [('mapping', 'config/xml-mapping.conf'),
         ('elements', PKG + 'auto_annotate_fulltext.py FULLTEXT_TAG_TO_TEI_PATH_MAPPING'),
         ('matching', PKG + 'annotation/simple_matching_annotator.py process_target_annotations')]
    ),
]
