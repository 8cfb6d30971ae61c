"""Prose for DESIGN.md which is not in the check modules."""
NOTES = {
 'C01': dict(
  states='A state is an expression object reached by a sequence of operator applications; transitions are operator applications, simplify, evaluate (complete, partial, substitution), negate and copy.',
  oracle='Text of the result read by mc/cexpr.py (precedence climbing, written independently) and evaluated over doubles, compared to the value of the tree; operands are compared with their state before the operation.',
  cost='quick 12 s, thorough about 4 min.', limits='Depth 3 trees, and functions other than abs.',
  corrected='Integer division: the code folds 1/2 to 0.5 while C has 0; the code\'s own tests fix 0.5, so the model uses real division.'),
 'C02': dict(
  states='Every text is a state; reading, printing (both forms) and reading again are transitions.',
  oracle='Value by mc/cexpr.py of the original text, of the printed text, of the C form; second printing equal to the first.',
  cost='quick 6 s, thorough 2 min.', limits='Five and more operators; text forms rejected by the grammar.'),
 'C03': dict(states='A state is a chain of parts; transitions are the operations of the orientation classes.',
  oracle='4x4 affine matrices over doubles (mc/geom.py), written from the McStas manual.', cost='quick 28 s.',
  limits='Symbolic angles which make the y rotation exactly a quarter turn at run time.'),
 'C04': dict(states='A state is the partial instrument after each component; the placement menu is the transition relation.',
  oracle='mc/geom.py for the object; the compiled program prints absolute positions, rotations and the state of a test particle in each component.', cost='quick 17 s (several hundred instruments are compiled in one program each batch).',
  limits='Moving components at run time; more than four components in a chain.'),
 'C05': dict(states='Descriptions (feature to value); transitions render, read, print, read, print.',
  oracle='The description itself.', cost='quick 10 s.', limits='Combinations of four and more unusual features.'),
 'C06': dict(states='Instruments of C05; histories over two instruments and two files (save, load, edit, translate).',
  oracle='Every public view of the object before and after.', cost='quick 66 s, mainly HDF5 itself.'),
 'C07': dict(states='Instruments and operation histories (copy, split, edit, translate); split points.',
  oracle='Placement by mc/geom.py, content by the description, program runs of halves against the whole.', cost='quick 41 s.',
  corrected='A parameter whose name occurs only as a part of another word may be kept: the code documents a conservative text search.'),
 'C08': dict(states='(component, event state, pending jumps, group state) of a reference interpreter, explored over all 16 decision vectors for each instrument.',
  oracle='The reference interpreter, written from the McStas manual; each trace is replayed by the compiled program with one event per decision vector.',
  cost='quick about 100 s.', limits='Backward JUMP after SPLIT; JUMP into a GROUP; random SPLIT counts.',
  corrected='An event absorbed in a GROUP before scattering goes on to the next member; the generated code documents it, so the model follows.'),
 'C09': dict(states='Instruments over the value menu; runs under three assignments.', oracle='Values from the description, printed by the program in all sections.', cost='quick 38 s.'),
 'C10': dict(states='Sets of registries and files; histories of asking and adding.', oracle='A four line model: registries by priority then order, exact names.', cost='quick 17 s.'),
 'C11': dict(states='Graphs of requests.', oracle='Each library body holds a marker; order and count of the markers in the text, and gcc.', cost='quick 66 s.'),
 'C12': dict(states='Ranges, command lines, scans.', oracle='Exact rational arithmetic (fractions).', cost='quick 3 s.'),
 'C13': dict(states='Scans, option sets, command lines, histories of changing and running.', oracle='A stand-in program that records how it was started.', cost='quick 26 s, thorough 5 min.'),
 'C14': dict(states='Files and combination trees.', oracle='The arrays the file was made from.', cost='quick 7 s.'),
 'C15': dict(states='Summaries and combination sequences.', oracle='The entries the summary was made from.', cost='quick 7 s.'),
 'C16': dict(states='Sets of declarations and statements.', oracle='gcc: the same declaration at file scope of a plain C program, with the same printing code (sizeof, values, types by _Generic).', cost='quick 88 s.'),
 'C18': dict(states='Arrangements of components in files; transitions are the statements as they are read.', oracle='flatten() writes out the components of the arrangement, by list positions only; the text of one file with plain references is read too, and every public view (and the generated C for a subset) compared.',
  cost='quick 75 s, thorough about 10 min.', limits='Deeper nesting than two, METADATA clashes between files.',
  corrected='PREVIOUS before the first component: McStas reads ABSOLUTE, the code refuses in some arrangements; both are accepted.'),
 'C19': dict(states='Instruments after each call.', oracle='The instrument read from text (and its C), and a dictionary model of an instrument for call sequences.', cost='quick 70 s.', corrected='A sum of a string parameter and a number has no meaning in C: the program made for it is not compared, and such descriptions are left out.',
  limits='Values nobody can mean (a number for a vector, a dictionary) are not judged; comments and source lines in the C are left out; whole numbers may print with or without .0 in coordinates.',
  missed={'c19-reference-case': ' (missed until a component was named absolute2)'}),
 'C20': dict(states='Sets of definition files; a transition is asking the reader for a definition (which reads those it copies).', oracle='A dictionary of what each definition states, with COPY followed by the model; generated programs print what the sections did.',
  cost='quick 60 s.', limits='MYSELF as a default and symbol parameters.', missed={'c20-copy-of-copied-section': ' (missed in the quick tier until chains of copied sections were explored for all sections)'}),
 'C21': dict(states='Words and distributions of flags, targets, outputs.', oracle='A shell word splitter and a table of meanings, and a stand-in compiler which records its call and input.', cost='quick 20 s.',
  limits='Windows flags; commands with parentheses; GETPATH of unknown files.',
  missed={'c21-funnel-all': ' (missed until only the last component needed the CPU)', 'c21-last-path': ' (missed until two registries had the file)', 'c21-broken-compiler': ' (missed until the compiler failed with an old program in place)'}),
 'C22': dict(states='Instruments after each operation of a history; processes with string hashes.', oracle='The program of a fresh process; the public views of the instrument before the operation.', cost='quick about 60 s.',
  corrected='The comment on top of a printed instrument lists its registries, to which translating adds the C library; it is not compared.'),
 'C17': dict(states='Sets of variables; sequences of three set operations, each followed by reading all.', oracle='A dictionary per particle.', cost='quick 53 s.'),
 'C23': dict(missed={'c23-list-name': ' (lists of all names had the same content)'},states='What is on the disk after each end, error, cut answer or pair of pauses.', oracle='What the server has; for configuration files, the bytes before and those of an undisturbed run.', cost='quick about 65 s.',
  limits='Writes reach the disk in their order (no loss of power). Two processes are paused once each (thorough: the first twice).',
  corrected='Server answers 301 and 304 without a place to go are not faults but wrong servers, and were removed from the menu; a second unset fails rightly.'),
 'C24': dict(missed={'c24-partial-output': ' (the menu of errors had none which only the translation finds; libraries without source were added)'},states='One per command line and layout of files.', oracle='A model of the search order, the tree of files before, the program of the library functions, and what the built program prints.', cost='quick about 40 s.',
  limits='A whole-file syntax error is only printed by the parser and gives an incomplete instrument; this is not judged. --no-runtime is judged by the included and printed names, not by linking.',
  corrected='Instruments named by %include are looked for in the working directory first, as in McCode; the model said -I folders first.'),
 'C25': dict(states='User file, environment and cache after each command.', oracle='Nested dictionaries merged by layers; the tree of files without what was named.', cost='quick about 35 s.',
  limits='Deleting is performed by a forked process of user 65534, whose only own files are in the scratch folder.',
  corrected='The environment of the check itself must not reach the commands; folders linked into the cache may be emptied by name.'),
 'C26': dict(states='Metadata of definition, copy, instance and instrument; transitions are the routes (print and read, HDF5, copy, calls).', oracle='The description; the table as printed, in hexadecimal, by the compiled program.',
  cost='quick about 45 s.', limits='Metadata of instruments joined by %include are part of C16.'),
 'C27': dict(states='The line printed so far by the program; each block of code prints its section, component, parameter and event.', oracle='The expected sequence of lines, from the language definition.',
  cost='quick about 60 s.', limits='Code which ends the program; parallel runs.'),
 'C28': dict(states='The values of four variables after each assignment.', oracle='The same declarations and assignments in a program compiled by gcc; cexpr for the run with unknown start values.',
  cost='quick about 15 s.', limits='Assignments of numbers to simple variables, as the implementation says; comments and other statements are refused by it.',
  corrected='Parentheses in an initial value are not folded when reading: only the value is judged there.'),
 'C29': dict(states='Pairs and triples of numbers and forms.', oracle='Python numbers.', cost='quick about 2 s.', limits='Equal numbers of different kinds may have different hashes; infinities.',
  corrected='A quotient beyond the largest double was in the menu.'),
}
