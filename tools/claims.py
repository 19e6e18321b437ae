CLAIMS = {
 'C01': (ABSINT + ' of printers, lexer, parser and constructors in '
         'sequence',
         'About 90 texts of every class of character, quoting and escape in '
         'every place that takes text; every leaf with representatives of '
         'its parameters, alone and in every construct; constructs nested '
         'three deep; every layout (the width is unknown).'),
 'C02': (ABSINT + '; result compared with structural equality',
         'Every pair of datashape classes with unknown parameters; dimension '
         'lists up to length 4; one level of nesting.'),
 'C03': (ABSINT + ' with a model of the pickle and copy protocols',
         'Every class of datashape with unknown parameters, alone and inside '
         'every composite, under every protocol and both kinds of copy.'),
 'C04': ('effect and escape analysis by ' + ABSINT + ', with heap snapshots',
         'Every public operation on every class of datashape with unknown '
         'parameters; every container passed in or handed out, modified in '
         'three ways.'),
 'C05': ('effect analysis by ' + ABSINT + ', with snapshots of every table',
         'Every public operation on every class of datashape, every '
         'constructor with every kind of argument, every form of text, and '
         'every taken or unknown name.'),
 'C06': ('reference predictive parser of the documented grammar compared, '
         'over a cover of its states and tokens, with the ' + ABSINT +
         ' of the parser',
         'Every token in every state of every viable prefix up to length 5 '
         '(thorough: 6), every pair of tokens in each of 60 parser states, '
         'and every single-token edit of a corpus using every production.'),
 'C07': (ABSINT + '; exceptions leaving the parser',
         'Every constructor with 64 kinds of argument, alone and in pairs, '
         'with every known and unknown keyword, with unknown integers and '
         'texts; every construct around every kind of part; every viable '
         'prefix up to length 3 with every token; edits of every character '
         'of texts using every construct.'),
 'C08': ('automata extracted from the source and compared by product '
         'construction; ' + ABSINT + ' of the tokeniser',
         'Every text of every length for the two patterns; the loop on every '
         'text of two characters, every pair of tokens, every state of the '
         'string automaton.'),
 'C09': (ABSINT + '; name tables checked against a reference table',
         'Every documented scalar name and alias in text, registry and '
         'module, and the size and alignment of every sized type.'),
 'C10': (ABSINT + ' over a model of NumPy dtypes',
         'Every convertible class of measure with unknown dimensions up to '
         'rank 3, records and tuples of two fields nested once.'),
 'C11': (ABSINT + ' with integer intervals',
         'Every precision from 1 up and every scale, split into intervals.'),
 'C12': (ABSINT + '; result compared with a promotion table',
         'Every ordered pair of numeric, boolean, string and optional types '
         'and every way of wrapping them.'),
 'C13': (ABSINT + '; loaded under several set orders',
         'Every list of up to three discovered types (thorough: four) in '
         'every order, under three iteration orders of sets.'),
 'C14': (ABSINT + '; dispatch rules resolved for every class',
         'Every built-in, date, container and NumPy scalar class, with '
         'unknown values, and every subclass relation between them.'),
 'C15': (ABSINT + ' with unknown scalars',
         'Lists of up to three scalars (thorough: four), tables and nestings '
         'up to three deep, mappings of up to three keys.'),
 'C16': (ABSINT + '; predicate answers compared with their definition',
         'Every predicate on every class of type, nested up to two deep, in '
         'every accepted spelling.'),
 'C17': (ABSINT,
         'Shapes of up to four dimensions, nested up to three deep in every '
         'kind of composite.'),
 'C18': (ABSINT + '; verdict compared with structural equality',
         'Every pair of datashape classes with one differing part, under '
         'every option, nested up to two deep.'),
 'C19': (ABSINT + ' with unknown values of every class',
         'Every class of value against every measure, and sequences, '
         'mappings and rows of up to three entries nested twice.'),
 'C20': (ABSINT + ' with linear integer expressions',
         'Every kind of index on datashapes of up to four dimensions of every '
         'kind with unknown lengths, records with up to three fields.'),
 'C21': (ABSINT + ' with symbolic field names and types',
         'Records of up to four fields from every kind of input.'),
 'C22': ('relational ' + ABSINT + ', under several orders of sets and '
         'hashes',
         'Every operation on every class of datashape, every form of text, '
         'every constructor argument kind, duplicates among up to six names, '
         'sets of up to three elements, mappings of up to four keys; three '
         'iteration orders at run time and at import.'),
 'C23': (ABSINT + '; set tables checked for exhaustiveness',
         'Every named set against every class; unions and generic sets up to '
         'three unknown members.'),
 'C24': (ABSINT + ' with symbolic parts',
         'Every list of up to three dimensions of every kind over every '
         'class of measure, and every product of up to three factors.'),
 'C25': (ABSINT + ' with linear integer expressions',
         'Up to four datashapes with up to three common dimensions of every '
         'kind, in every order.'),
 'C26': ('reference predictive parser compared with the ' + ABSINT + ' of '
         'lexer, parser and error class',
         'Every token after every viable prefix up to length 4 (thorough: '
         '5), every token in 60 parser states, edits of a corpus, on nine '
         'line layouts; position arithmetic for every text over a letter '
         'and a line break up to length 5 and every position.'),
 'C27': (ABSINT + ' with regular-language text domain',
         'Every documented spelling, every pair of spellings, and arbitrary '
         'other text (text domain: regular languages).'),
 'C28': (ABSINT + ' with linear integer expressions',
         'Unknown lengths up to 2**48 and unknown bounds in every order and '
         'both spellings; every step up to 3 (thorough: 5, 7 and 10) and '
         'unknown steps above the length.'),
 'C29': (ABSINT + ' with regular-language text domain',
         'Every text that int, float or strptime read, every word of letters '
         'or blanks, every number of up to 15 digits (or more than 19) with '
         'every spelling of a unit, and every other text of up to four words '
         'under every outcome of dateutil, which is uninterpreted.'),
 'C31': (ABSINT + ' with linear integer expressions',
         'Unknown bounds from the front, the end or missing in every order; '
         'every step up to 3 (thorough: 7) with every remainder and unknown '
         'larger steps.'),
 'C32': (ABSINT,
         'Every class with unknown parameters, alone and in every composite '
         '(thorough: two deep); up to 8 parts.'),
 'C33': ('reference predictive parser compared with the ' + ABSINT + ' of '
         'the parser on a table whose entries record their calls',
         'A corpus of 150 texts using every production and names of the '
         "table's own; each entry a text uses removed in turn; nothing but "
         'those entries.'),
 'C35': (ABSINT,
         'Every construct in every construct two deep (half of those three '
         'deep; thorough: all), up to 17 parts and 9 dimensions; the '
         'predicate holds for each part alone, all, none, and pairs of outer '
         'and inner parts.'),
 'C36': (ABSINT,
         'Every class with unknown parameters below up to four dimensions '
         '(thorough: of every kind) and in every construct; up to 13 '
         'dimensions and 14 arguments of dshapes.'),
 'C34': (ABSINT,
         'Every kind of difference in every context up to three deep; every '
         'place of up to 12 parts and 8 dimensions.'),
}
NA = {
 'C30': 'time and stack use are run-time quantities',
}
