"""Single source of properties.jsonl and MANIFEST.json: run `python3 -m mc.catalog` in /verif after editing."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), claimed=True,
         na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state, observe=observe, claimed=claimed, na=na))


ENUM = 'bounded exhaustive enumeration of operation sequences on the real code, compared step by step with an explicit reference model'

prop('C01', 'Expression arithmetic and simplification preserve value',
     'Building expressions with + - * / (powers), unary minus and abs(), simplifying, negating, copying, and evaluating them '
     '(completely, partially, or by substituting expressions for identifiers) never changes the real number they denote for any '
     'assignment of the identifiers. Constant results are recognised as constant and numbers are accepted on either side of every '
     'operator. Operands are never modified by the operation that uses them.',
     ['inputs', 'histories'], 'all operator trees to depth 2 over constants and identifiers, all values in a menu, complete and partial',
     'The expression tests sample a few dozen fixed identities; a wrong folding rule needs a specific combination of operator, '
     'constant (0, 1, -1) and operand shape.',
     ['src/mccode_antlr/common/expression.py'],
     [('folding and simplification in operation nodes', 'src/mccode_antlr/common/expression.py')],
     ENUM, 'Exhaustive within the stated trees and values; the oracle is an independent C-expression reader over doubles.')

prop('C02', 'Expression text is read with C meaning and prints back to the same',
     'An expression written in the instrument language is read with the precedence, associativity and sign rules of C (with ^ as '
     'power), so its value is the one C would compute. Printing an expression gives text with the same meaning, and reading '
     'that text and printing it again gives the same text, also in the printed form used for generated C. Text which is no '
     'expression (a missing operand or bracket, text after its end) is refused.',
     ['inputs', 'programs'], 'all expression texts with up to 3 (thorough 4) binary operators, signs, parentheses, conditionals and all operand kinds',
     'Tests use a handful of simple texts; precedence and parenthesis errors need particular pairs of operators and nesting.',
     ['src/mccode_antlr/common/expression.py', 'src/mccode_antlr/instr/visitor.py', 'src/mccode_antlr/comp/visitor.py'],
     [('expression visitor', 'src/mccode_antlr/common/visitor.py'), ('__str__ of operation nodes', 'src/mccode_antlr/common/expression.py')],
     ENUM, 'Exhaustive within the stated texts; trusts the independent reader mc/cexpr.py.')

prop('C03', 'Rotation and translation chains keep their geometric meaning',
     'A chain of rotations (about x, y or z, in degrees or radian) and translations keeps the affine map it denotes when it is '
     'resolved, reduced, inverted, concatenated in either order, or specialised by giving values to identifiers. '
     'A dependent placement (position relative to one frame, rotation relative to another) has the absolute position, rotation matrix and Euler '
     'angles that the McStas convention (x, then y, then z, in the frame of the reference) prescribes, whether angles are in degrees or radian.',
     ['inputs', 'histories'], 'all sequences of up to 3 (thorough 4) parts from a menu of special and general angles, and all dependent placements of 3 components from a menu',
     'Tests check a few chains; sign, order and special-angle errors (180 degrees, gimbal lock) need specific combinations.',
     ['src/mccode_antlr/instr/orientation.py'],
     [('Part/Parts/Orient algebra', 'src/mccode_antlr/instr/orientation.py')],
     ENUM, 'Exhaustive within the menu; compared with an independent plain-number affine algebra to 1e-9.')


prop('C04', 'Every component sits where its AT and ROTATED statements say',
     'The absolute position and rotation of every component follow the McStas convention for its AT and ROTATED statements (ABSOLUTE, '
     'RELATIVE to a named component, RELATIVE PREVIOUS(n); default rotation follows the AT reference; symbolic coordinates depend on instrument '
     'parameters), both in the parsed instrument and in the compiled program at run time, for any parameter values. A particle enters each '
     'component in the coordinates of that component, also if earlier components have no TRACE code.',
     ['inputs', 'programs'], 'all chains of two placed components times every third placement from a menu of positions, angles and independent references',
     'The positioning tests check few fixed chains in Python only and none compiles and runs the placement code; errors need a combination of references.',
     ['src/mccode_antlr/instr/orientation.py', 'src/mccode_antlr/instr/visitor.py', 'src/mccode_antlr/translators/c_initialise.py', 'src/mccode_antlr/translators/c_raytrace.py'],
     [('placement parsing', 'src/mccode_antlr/instr/visitor.py'), ('generated position code', 'src/mccode_antlr/translators/c_initialise.py')],
     ENUM, 'Exhaustive within the menu; the generated C is compiled against a stand-in runtime with McCode coordinate routines and run.')

prop('C05', 'An instrument printed as text reads back as the same instrument',
     'Every instrument read from text holds what the text says (parameters with units and defaults, DEPENDENCY flags, C blocks, METADATA, and per component: '
     'type, COPY, values, WHEN, AT, ROTATED, GROUP, EXTEND, JUMP, SPLIT, CPU, REMOVABLE, METADATA); printing it and reading the text again gives an '
     'instrument with the same content, and printing that one gives the same text again. Reading only the parameters, or with another of the reading functions, '
     'gives the same.',
     ['inputs'], 'every value of every feature menu in two surroundings, all pairs of features, all triples of component modifiers',
     'There is no test which prints and reads a complete instrument; losses need combinations of a statement, its value and the statements around it.',
     ['src/mccode_antlr/instr/instr.py', 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/common/textwrap.py', 'src/mccode_antlr/instr/visitor.py'],
     [('printing an instance', 'src/mccode_antlr/instr/instance.py'), ('printing an instrument', 'src/mccode_antlr/instr/instr.py'), ('reading', 'src/mccode_antlr/instr/visitor.py')],
     ENUM, 'Exhaustive within the menus; the expected content comes from the description the text was made from, not from the implementation.')

prop('C06', 'Objects saved to HDF5 load as the same objects',
     'An instrument, expression or orientation saved to an HDF5 file and loaded again has the same content as before: the same printed text, component '
     'definitions, parameter values and types, metadata, placement and generated C; whether it was saved fresh, after it was translated, or after having been '
     'loaded itself, and whatever the file held before. Saving never changes the object, and a loaded object shares nothing with it.',
     ['inputs', 'histories'], 'the instruments of C05 and every history of up to 3 (thorough 4) saves, loads, edits and translations',
     'The only test saves one instrument with the distributed components (not available offline) and compares names; losses need a particular statement or value.',
     ['src/mccode_antlr/io/hdf5.py'],
     [('handlers of each type', 'src/mccode_antlr/io/hdf5.py')],
     ENUM, 'Exhaustive within the menus; equality is judged by every public view of the objects (text, values, generated C).')

prop('C07', 'Copies and splits of an instrument keep its content and placement',
     'A copy of an instrument has the same content and is independent: changing, translating or splitting either never changes the other. Splitting an '
     'instrument at a component gives one part up to and one from that component, which each own all they refer to, keep each component with all of its '
     'modifiers, the parameters in use and the placement in space (also if symbolic, and after printing and reading), and translate like an instrument '
     'freshly read from their text. Running the two programs of an MCPL split one after the other gives the events of the whole.',
     ['inputs', 'histories', 'programs'], 'chains of four components over a placement menu at every split point, the C05 descriptions, histories of up to 3 (thorough 4) operations, compiled halves over a menu of modifiers',
     'The tests of split need the distributed component library and look at a handful of names; sharing shows only in a later operation, and placement only for rotated or symbolic references across the cut.',
     ['src/mccode_antlr/instr/instr.py', 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/instr/orientation.py'],
     [('copy, split, mcpl_split', 'src/mccode_antlr/instr/instr.py'), ('symbolic placement', 'src/mccode_antlr/instr/orientation.py')],
     ENUM, 'Exhaustive within the menus; MCPL components are stand-ins storing the events in a text file.')

prop('C08', 'Compiled TRACE follows WHEN, GROUP, EXTEND, JUMP, SPLIT and ABSORB',
     'The generated program takes each event through the components exactly as the instrument describes: WHEN conditions, the first scattering '
     'member of a GROUP (others see the event unchanged, an event scattered by none is dropped), EXTEND code, JUMP (conditional and '
     'iterated, named or relative target), SPLIT (weight conserved), ABSORB and RESTORE, in the right coordinates and for every '
     'combination of what components decide; with JUMP-free instruments also in the FUNNEL layout.',
     ['inputs', 'histories', 'programs'], 'all instruments of three (four for groups) slots over a menu of components and modifiers, all 16 decision vectors of an event',
     'No reliable test compiles and runs generated TRACE code; control flow errors need a combination of modifiers and of component decisions.',
     ['src/mccode_antlr/translators/c_raytrace.py', 'src/mccode_antlr/translators/c_trace.py', 'src/mccode_antlr/translators/target.py', 'src/mccode_antlr/instr/group.py', 'src/mccode_antlr/instr/jump.py'],
     [('generated event loop', 'src/mccode_antlr/translators/c_raytrace.py'), ('trace functions', 'src/mccode_antlr/translators/c_trace.py')],
     'explicit-state exploration: a reference model of the component logic enumerated over all decision vectors, with every model trace replayed on the compiled program',
     'Exhaustive within the stated slots and decisions; no backward JUMP after a SPLIT, no JUMP into a GROUP; stand-in C runtime.')


prop('C09', 'Parameters reach the generated program with the values they are given',
     'In the compiled program every component setting parameter (real, integer, string, vector, integer array; with or without a default) has the value the '
     'instance gives it or else its default, where values can be literals, instrument parameters, expressions, calls, conditionals, DECLAREd '
     'variables or NULL, for any values of the instrument parameters at run time, and the same value in the INITIALIZE, TRACE, SAVE, FINALLY and MCDISPLAY code. '
     'The instrument parameter table offers every parameter with its name, type, unit and default, and instrument sections see the values '
     'given at run time. DECLAREd component variables start with their initial values.',
     ['inputs', 'programs'], 'all parameter types and defaults times all values in a menu, alone and in all pairs of parameters, under three parameter assignments; menu of declarations',
     'No reliable test compiles and runs an instrument with parameters; errors need a combination of declared type, default and kind of value.',
     ['src/mccode_antlr/translators/c_initialise.py', 'src/mccode_antlr/translators/c_decls.py', 'src/mccode_antlr/translators/c_defines.py', 'src/mccode_antlr/translators/c_save.py', 'src/mccode_antlr/translators/c_finally.py', 'src/mccode_antlr/translators/c_display.py', 'src/mccode_antlr/instr/instance.py'],
     [('setting parameter code', 'src/mccode_antlr/translators/c_initialise.py'), ('parameter table', 'src/mccode_antlr/translators/c_decls.py')],
     ENUM, 'Exhaustive within the menu; the generated C is compiled against a stand-in runtime and run.')

prop('C10', 'A name is resolved to the first registry holding exactly that file',
     'A component, instrument or other file asked for by name is taken from the first registry, in order of priority (and of being added among equals), '
     'that has a file of that name, with or without its extension or leading folders; files whose name merely contains, starts or ends with '
     'the name are never used in its place, and a name held by none is an error. The same holds for folder, in-memory and remote registries, and for '
     'folders added with SEARCH, also after registries or files are added. A SEARCH specification (a folder, a name and a folder, or a name, a URL and a '
     'list of files or a version with one) adds that registry, once, as the first one, or is refused and changes nothing.',
     ['inputs', 'histories'], 'registries of each kind with every set of up to 3 files of a menu, pairs of registries of all kinds and priorities, histories of up to 3 (thorough 4) steps, SEARCH at every place',
     'Registry tests need the network or look at one registry with one obvious file; a wrong match needs a particular combination of similar names, folders and priorities.',
     ['src/mccode_antlr/reader/registry.py', 'src/mccode_antlr/reader/reader.py', 'src/mccode_antlr/instr/visitor.py'],
     [('registries', 'src/mccode_antlr/reader/registry.py'), ('lookup of components and files', 'src/mccode_antlr/reader/reader.py')],
     ENUM, 'Exhaustive within the stated sets; several files of the same name in one registry may give any of them or an error.')

prop('C11', 'Each requested library is embedded once, before the code using it',
     'A library requested with %include in any C block of an instrument, of its components or of another library is embedded in the generated C exactly once, '
     'after the libraries it requests itself and before the code of the block which requests it; other files replace the %include statement, to any depth. '
     'The generated C compiles whatever the order and place of the requests, also if libraries request each other in a cycle. '
     'Libraries and the files of the runtime come from the first registry which has a file of that name.',
     ['inputs', 'programs'], 'all graphs of requests between 3 libraries and acyclic ones between 4, all orders of requests from up to 3 blocks in several places, all nestings of plain files to depth 3',
     'No reliable test uses a library; a missing, repeated or late library needs a particular graph of requests and order of blocks.',
     ['src/mccode_antlr/translators/c.py', 'src/mccode_antlr/translators/target.py'],
     [('include handling', 'src/mccode_antlr/translators/c.py')],
     ENUM, 'Exhaustive within the stated graphs; the order within a cycle is not judged.')

prop('C12', 'Ranges and scans hold exactly the requested points, in order',
     'A range start:step:stop (or start:stop) holds exactly start, start+step, ... up to and including stop where the steps reach it, despite rounding; integers stay '
     'integers; its length, items, iteration and printed form agree. A scan over several parameters visits the values pairwise (line) or all combinations in '
     'order (grid); single values are repeated, and lengths which do not fit are refused. Parameters on a command line keep their name and value in '
     'both spellings (name=value and name value). The given parameters and list of arguments are not changed.',
     ['inputs', 'histories'], 'all ranges over a grid of starts, stops and steps; all command lines of up to 3 parameters; all dictionaries of up to 3 (thorough 4) parameters of a menu as line and grid',
     'No test covers ranges; a missing or extra last point needs a particular start, step and stop, and pairing errors a particular mix of parameter kinds.',
     ['src/mccode_antlr/run/range.py'],
     [('ranges and scans', 'src/mccode_antlr/run/range.py')],
     ENUM, 'Exhaustive within the stated grids and menus; exact rational arithmetic is the oracle.')

prop('C13', 'Runs and scans start the program once per point, as asked for',
     'A run or scan starts the instrument program exactly once per point, in order, with the values of this point, the requested runtime options (count, seed, '
     'gravitation, trace, buffer size, ...) and its own output directory (dir, or dir/0, dir/1, ... for several points), and returns the results of every point in order, each read from its '
     'own directory. A failing program is reported as an error. Options may stand at any place of the command line; a dry run starts nothing. Instruments are '
     'compiled if they or their components changed, and not run as something older.',
     ['inputs', 'histories'], 'all scans of up to 2 (thorough 3) parameters, all subsets of options, all command lines with up to 2 (thorough 3) options at any place, all entry points, histories of changes and runs',
     'No reliable test runs a program; a lost option, directory or point needs a particular combination of options, number of points and entry point.',
     ['src/mccode_antlr/run/runner.py', 'src/mccode_antlr/run/range.py', 'src/mccode_antlr/compiler/c.py', 'src/mccode_antlr/cli/commands.py'],
     [('running and scanning', 'src/mccode_antlr/run/runner.py'), ('compiling and starting', 'src/mccode_antlr/compiler/c.py')],
     ENUM, 'Exhaustive within the menus; the started programs are stand-ins recording how they were started.')

prop('C14', 'Monitor files are read, printed and combined bin by bin',
     'A monitor data file of 0, 1 or 2 dimensions is read with every number, header entry, label and bin boundary it holds, and prints to a file which reads the same; an existing file is '
     'not overwritten. Combining files of equal measurements adds intensities and counts bin by bin, errors in quadrature, and the particle counts; '
     'entries which may differ (directory, seed, date, file name) keep every distinct value. Files which do not belong together are refused. The grouping does not matter, '
     'and the combined files are not changed.',
     ['inputs', 'histories'], 'all shapes to 6x6 (thorough 8x8) bins with menus of values and headers; all sequences of 2 and 3 (thorough 4) files differing in one entry each, in all groupings',
     'No reliable test reads a data file; errors need a particular shape, header value or sequence of files.',
     ['src/mccode_antlr/loader/datfile.py'],
     [('data files', 'src/mccode_antlr/loader/datfile.py')],
     ENUM, 'Exhaustive within the stated shapes and menus; the content of combined statistics is not judged.')

prop('C15', 'Simulation summaries are read, printed and combined entry by entry',
     'A simulation summary (.sim) file is read with every instrument, simulation and data entry it holds, and prints to a file which reads the same. Combining summaries keeps every distinct name, '
     'directory and date, adds the particle count of repeated runs, and combines the data of the same component and file once, adding intensities and counts and '
     'errors in quadrature; data present in some only are kept; data which do not fit are refused. The combined summaries are not changed.',
     ['inputs', 'histories'], 'all sequences of up to 3 (thorough 4) monitors of a menu with all headers; all sequences of 1 to 3 (thorough 4) summaries from a menu of changes',
     'No reliable test reads a summary; errors need a particular mix of entries, e.g. a component with two files, or repeats with equal folders.',
     ['src/mccode_antlr/loader/simfile.py'],
     [('summaries', 'src/mccode_antlr/loader/simfile.py')],
     ENUM, 'Exhaustive within the menus; statistics of combined entries are not judged.')

prop('C16', 'Variables declared by a component are those C declares, in every instance',
     'Every variable in the DECLARE block of a component is a private variable of each instance with the name, type and size C gives the same declaration, and starts with the value C gives it: '
     'numbers, text, pointers, function pointers, structures, unions, enumerations, arrays of any dimension and of open length, with any initial value, several in one statement '
     'or several statements, with comments, and types from SHARE blocks, libraries and other components. Changing a variable of one instance never shows in another.',
     ['inputs', 'programs'], 'all types of a menu with all declarators and all fitting initial values; all pairs (thorough triples) of declarations of a menu; all statements of 2 and 3 (thorough 4) declarators',
     'The tests compare extracted text for about 20 declarations and never compile it; errors need a particular type, declarator and initial value.',
     ['src/mccode_antlr/translators/c_listener.py', 'src/mccode_antlr/translators/c_decls.py', 'src/mccode_antlr/translators/c_initialise.py', 'src/mccode_antlr/translators/c_defines.py'],
     [('extraction of declarations', 'src/mccode_antlr/translators/c_listener.py'), ('initial values', 'src/mccode_antlr/translators/c_initialise.py')],
     ENUM, 'Exhaustive within the menu; the oracle is the C compiler, given the same declarations directly.')

prop('C17', 'User variables belong to each particle and names are found exactly',
     'USERVARS of the instrument, and those of each component instance under their name and the index of the instance, are members of every particle with the type and size declared; numbers start as zero for every particle, '
     'SPLIT copies have the values of the original, and nothing else changes them. Reading and setting variables and particle properties by name or number at run time reaches exactly the named '
     'one, and unknown names are reported; EXTEND blocks know the variables of the instrument and of their component by name. Component indices and parameters are found by exactly the name of the component. '
     'Equal declarations are one variable, different ones of the same name are refused.',
     ['inputs', 'histories', 'programs'], 'all sets of up to 2 (thorough 3) instrument variables with sets of component variables, times all sequences of 3 operations of setting any of them in any way, each followed by reading all in every way',
     'No reliable test runs an instrument with user variables; errors need particular combinations of types, names, component order and sequence of operations.',
     ['src/mccode_antlr/translators/c.py', 'src/mccode_antlr/translators/c_header.py', 'src/mccode_antlr/translators/c_trace.py', 'src/mccode_antlr/translators/c_macros.py', 'src/mccode_antlr/translators/c_raytrace.py'],
     [('user variables', 'src/mccode_antlr/translators/c.py'), ('particle structure and access functions', 'src/mccode_antlr/translators/c_header.py'), ('lookup functions', 'src/mccode_antlr/translators/c_macros.py')],
     ENUM, 'Exhaustive within the menus, explored inside the compiled program: every particle performs one of all the operation sequences.')

prop('C18', 'Included files, copies and references mean what one written-out file would',
     'An instrument read from a file with %include (nested and repeated), COPY of components, automatic COPY names, REMOVABLE components, RELATIVE references by name or PREVIOUS(n), and MYSELF or PREVIOUS as values, '
     'is the one which a single file without any of these describes: the same components in order with the values, conditions, jumps, code and placement they state or copy, the parameters (first declaration wins), DEPENDENCY flags '
     'and code sections of all files in the order of inclusion; REMOVABLE components of included files are left out and never referred to. A reference to an unknown component and a repeated name are refused.',
     ['inputs'], 'all sequences of up to 3 components after a first one from menus of names, copies, references and modifiers, in all arrangements of files to depth 2; all sets of up to 3 sections in three files; all placings of MYSELF and PREVIOUS',
     'No reliable test includes an instrument; errors need particular nesting, order and kinds of references together.',
     ['src/mccode_antlr/instr/visitor.py', 'src/mccode_antlr/reader/reader.py', 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/instr/instr.py'],
     [('reading instruments', 'src/mccode_antlr/instr/visitor.py'), ('finding and reading files', 'src/mccode_antlr/reader/reader.py'), ('copies', 'src/mccode_antlr/instr/instance.py')],
     ENUM, 'Exhaustive within the menus; the model writes out the single file content from the arrangement.')

prop('C19', 'Method calls build the instrument which the text describes',
     'An instrument put together by method calls (Assembler, Instance and Instr methods) with any kind of Python value (numbers, text of expressions, lists, numpy arrays and numbers, Expr) for values, positions, orientations, references, '
     'conditions, counts, parameters with units, code and metadata, in any order (parameters before or after their use), holds the same, prints the same and gives the same C code as the corresponding text. '
     'What the text could not say is refused, and a refused call changes nothing; a repeated value is only taken with overwrite; user variables are declared once.',
     ['inputs', 'histories'], 'all descriptions of the printing property (features alone and in pairs) built in four ways, all values for all types of parameters, all pairs of position and orientation forms, all sequences of up to 3 (thorough 4) calls from 22',
     'Unit tests build a few instruments by one route each and never compare with the text or try refused calls in the middle.',
     ['src/mccode_antlr/assembler/assembler.py', 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/instr/instr.py', 'src/mccode_antlr/common/parameters.py', 'src/mccode_antlr/common/expression.py'],
     [('the assembler', 'src/mccode_antlr/assembler/assembler.py'), ('component instances', 'src/mccode_antlr/instr/instance.py'), ('values', 'src/mccode_antlr/common/expression.py')],
     ENUM, 'Exhaustive within the menus; call sequences are compared with a model of the instrument after every call.')


prop('C20', 'A component definition is what its text and what it copies say',
     'A component definition read from a file has the parameters (types, defaults), category, metadata, flags, NOACC and code sections which its text states. A definition made with COPY has everything of the other one except what it states itself: '
     'a stated section replaces the copied one, a section COPY takes the blocks of the other definition and EXTEND adds to their end, a parameter stated again replaces the copied one, metadata and flags belong to the copy; '
     'the other definition stays as it was, whatever the order in which definitions are asked for. Programs can use a definition together with its copies.',
     ['inputs', 'histories'], 'all values of all features of one definition and all pairs; all pairs of a feature of the original and one of the copy; all ways of three definitions to copy sections and each other; generated programs with copies',
     'The reliable tests read a few definitions and no copied one.',
     ['src/mccode_antlr/comp/visitor.py', 'src/mccode_antlr/comp/comp.py', 'src/mccode_antlr/reader/reader.py', 'src/mccode_antlr/translators/c_decls.py'],
     [('reading definitions', 'src/mccode_antlr/comp/visitor.py'), ('definitions', 'src/mccode_antlr/comp/comp.py')],
     ENUM, 'Exhaustive within the menus; the model of a set of definitions is what each one states.')

prop('C21', 'The compiler is called with the flags of target, instrument and components',
     'Compiling an instrument calls the compiler of the target (plain, MPI, OpenACC) once, with the configured flags of the target (MPI and NeXus, too, if asked for), the translated program on its input, the requested output file, and after it the words of '
     'every DEPENDENCY of the instrument and of its components: each once, in the order of their first use, with ENV, GETPATH, CMD and @...FLAGS@ replaced and quotes as in a shell, and -DFUNNEL if a component needs the CPU. '
     'The flags are those of the text whether it was printed, copied or built by calls. A malformed flag, a failing command and a failing compiler raise an error; an existing program is kept unless it is to be replaced.',
     ['inputs'], 'all sequences of up to 2 (thorough 3) of 30 words of a flag in instrument and component, all distributions of up to 4 flags in four ways of building, all targets with CPU components, all malformed flags, all kinds of output',
     'The tests which compile need the network and are not reliable; they use one flag at a time.',
     ['src/mccode_antlr/compiler/c.py', 'src/mccode_antlr/instr/instr.py', 'src/mccode_antlr/loader/loader.py', 'src/mccode_antlr/reader/reader.py', 'src/mccode_antlr/compiler/check.py'],
     [('compiling', 'src/mccode_antlr/compiler/c.py'), ('flags', 'src/mccode_antlr/instr/instr.py')],
     ENUM, 'Exhaustive within the menus; a stand-in compiler records how it is called.')

prop('C22', 'The same instrument gives the same program, whatever happened before',
     'The C program of an instrument (except the date) depends on the instrument, the libraries and the options alone: not on what this or other instruments were translated to, printed, copied, split, saved or asked for before, '
     'nor on earlier definitions of the same name elsewhere, nor on string hashes of the process; and none of this changes the instrument. The macros of the runtime header (@MCCODE_VERSION@ and the like) are those of the library and flavor in use.',
     ['histories', 'inputs'], 'all histories of 2 (thorough 3) of 8 operations on 6 instruments, of operations on another instrument before or between, all sequences of additions with an operation between, all sequences of uses of one translator, several string hashes',
     'Tests translate an instrument once, in one process.',
     ['src/mccode_antlr/translators/c.py', 'src/mccode_antlr/translators/target.py', 'src/mccode_antlr/common/block.py', 'src/mccode_antlr/config/__init__.py', 'src/mccode_antlr/instr/instr.py'],
     [('translation', 'src/mccode_antlr/translators/c.py'), ('code blocks', 'src/mccode_antlr/common/block.py'), ('configuration', 'src/mccode_antlr/config/__init__.py')],
     ENUM, 'Exhaustive within the menus; the oracle is the program which a fresh process gives. String hashes are a bounded set of seeds.')

CRASH = 'exhaustive exploration of crash points, torn writes, write errors, server faults and interleavings of two processes on the real code'

prop('C23', 'Kept lists and configuration files are complete or absent at any crash point',
     'Wherever a process which first uses a remote registry, or saves, sets or unsets configuration, ends, has an error of the disk or the server, or is interleaved with another process doing the same: a process which succeeds, then or later, '
     'with or without network, has exactly the files, hashes and contents which the server has, and the configuration file is what it was before or what it was to be. '
     'After any such fault the next process with a network succeeds and keeps the list for those without; lists are read the same with blank lines, extra blanks and any line ends.',
     ['crash_points', 'fault_sequences', 'schedules'], 'ends and errors at every change of a file, torn writes after each byte (quick: the first, middle and last ones), answers of the server with error codes or cut off, all pauses of two processes; a menu of lists, versions and ways to name them, and of configuration files',
     'Tests use complete cached files and one process; a partial list remains in the cache for ever and is then read as if it were complete.',
     ['src/mccode_antlr/reader/registry.py', 'src/mccode_antlr/cli/management.py'],
     [('list of a registry', 'src/mccode_antlr/reader/registry.py'), ('configuration file', 'src/mccode_antlr/cli/management.py')],
     CRASH, 'Exhaustive within the bounds; operations which change files are intercepted by a preloaded library (mc/native/crash.c) in forked processes. A loss of power, with writes not yet on the disk, is not modelled. Files which are left over under other names are not judged.')

prop('C24', 'The command line translates exactly the given file, with the given options',
     'mcstas-antlr and mcxtrace-antlr write, to the named file or else beside the input with the extension .c, the program which the library functions give for the instrument (text or HDF5) and options; nothing else is changed, and after an error, '
     'which is told by the exit code, not even the output. Component and library files come from the -I folders in the order given, then the working directory, then the distribution (instruments: first from the working directory). '
     'The program has the flavor, the name, the path of the source, main, trace and portable settings asked for, and with --source the exact text of the instrument.',
     ['configurations', 'inputs'], 'all 64 sets of options for 5 instruments as text and HDF5, all subsets of 4 places and orders of -I folders for 4 kinds of files, all ways to name input and output, all options with the built program, a menu of embedded texts, 12 kinds of errors',
     'No test calls the commands.',
     ['src/mccode_antlr/cli/commands.py', 'src/mccode_antlr/translators/target.py', 'src/mccode_antlr/translators/c_header.py', 'src/mccode_antlr/reader/reader.py', 'src/mccode_antlr/common/utilities.py'],
     [('command', 'src/mccode_antlr/cli/commands.py'), ('embedded source', 'src/mccode_antlr/translators/c_header.py')],
     'bounded exhaustive enumeration of command lines and file layouts on the real commands, compared with a reference model of places and with the built program',
     'Exhaustive within the menus; the program text is compared with that of the library functions, whose meaning other properties judge. The distribution is a small stand-in.')

prop('C25', 'Configuration and cache commands change and show exactly what they name',
     'After any sequence of mccode-antlr config set, unset and save, later processes see the value last set for each (dotted) key, the default for unset ones, and everything else as before; environment variables go first. '
     'config list and get show all values of all layers, those at or below the key, or those whose dotted key (or that of a group they are in) has a match of the expression; showing changes nothing. '
     'cache remove removes exactly the named folder of the cache, after y or yes or with --force, and never anything which is not inside of what was named, for any name; cache list shows exactly the folders which are there.',
     ['histories', 'inputs', 'configurations'], 'all sequences of 2 (thorough 3) of 15 commands from 3 user files and 3 environments, with all shown after each; all pairs of 18 names and 10 versions with 9 answers and by force; all sequences of 2 (thorough 3) of 7 removals',
     'No test calls the commands; what they do shows only in a later process.',
     ['src/mccode_antlr/cli/management.py', 'src/mccode_antlr/config/__init__.py'],
     [('commands', 'src/mccode_antlr/cli/management.py'), ('layers', 'src/mccode_antlr/config/__init__.py')],
     ENUM, 'Exhaustive within the menus; removals are performed by a process without privileges in a scratch folder. Messages are not judged.')

prop('C26', 'Metadata of instrument, components and instances reach the program exactly',
     'The metadata table of the compiled program holds exactly one entry for each metadata of the instrument and of each instance: those of its component definition (also if copied from another) which the instance does not replace by one of the same name, and its own. '
     'Each has its source, name, type and value byte for byte, and the count is right, however they are written (with blanks, quotes, escapes, several lines). '
     'It makes no difference whether the instrument was read, printed and read again, stored in HDF5, copied, or built by calls.',
     ['inputs', 'histories'], 'all combinations of names, types, values and places of metadata of a menu, for definitions, copies, instances and instrument, through every route',
     'Tests look at the Python objects of a few instruments; a value which is changed by escaping shows only in the running program.',
     ['src/mccode_antlr/common/metadata.py', 'src/mccode_antlr/translators/c_decls.py', 'src/mccode_antlr/instr/instance.py', 'src/mccode_antlr/comp/comp.py'],
     [('table', 'src/mccode_antlr/translators/c_decls.py'), ('collection', 'src/mccode_antlr/instr/instance.py')],
     ENUM, 'Exhaustive within the menus; every table is printed by a compiled program as bytes.')

prop('C27', 'Code of every section runs once per component, in order, at its time',
     'In the compiled program INITIALIZE of the instrument runs first and then that of every component in order, after all are placed; TRACE runs for each event, SAVE, FINALLY and MCDISPLAY once for each component in order, those of the instrument at their place; each with all of its blocks, also copied or extended ones, and with the parameters and variables of its own instance. '
     'Positions, rotations and distances of components are known to INITIALIZE and later. '
     'The NeXus records show the place, the parameters, their defaults and their values of every component.',
     ['inputs', 'orders'], 'all subsets of sections for up to 3 components of several definitions (own, copied, extended), all sequences of components up to a bound, all placements of a menu',
     'No test compiles and runs a program; order and multiplicity show only when it runs.',
     ['src/mccode_antlr/translators/c_initialise.py', 'src/mccode_antlr/translators/c_save.py', 'src/mccode_antlr/translators/c_finally.py', 'src/mccode_antlr/translators/c_display.py',
      'src/mccode_antlr/translators/c_trace.py', 'src/mccode_antlr/comp/visitor.py'],
     [('sections', 'src/mccode_antlr/translators/c.py'), ('placing', 'src/mccode_antlr/translators/c_initialise.py')],
     ENUM, 'Exhaustive within the menus; every trace is the output of a compiled program, compared with the expected sequence of lines.')

prop('C28', 'Values read from C declarations and assignments are those the C code leaves',
     'Reading the declared variables of a C block gives each name with its type and initial value. Evaluating a sequence of assignments after it gives, for each variable, the value which the C code would leave there, as a number or an expression of names which are not known, whatever order, reuse and layout the assignments have; each keeps its declared type, and variables without a value get none. '
     'The given variables are not changed. Integer division with remainder and whole numbers made of fractions are not included.',
     ['inputs', 'histories'], 'all sequences of up to 2 (some of 3; thorough 3, some of 4) of 23 assignments over four variables and a free parameter, after each of 4 declaration blocks, in 4 layouts',
     'The tests evaluate one assignment; sequences with reuse and symbolic values are unlimited.',
     ['src/mccode_antlr/translators/c_listener.py'], [('evaluation', 'src/mccode_antlr/translators/c_listener.py')],
     ENUM, 'Exhaustive within the menu; the reference values are printed by a program which gcc compiled from the same text.')

prop('C29', 'Constant expressions compare, round and divide as the numbers they are',
     'Comparisons (<, <=, >, >=, ==, !=), sorting, minimum and maximum, floor division (//), rounding (with digits), absolute value and conversion to int of constant expressions and values give what they give for the numbers, for every mixture of expressions, values, numbers and results of calculations. '
     'Vectors are ordered if all of their pairs of elements are, are equal only if all elements are, and vectors of different size are not ordered. '
     'Rounding or absolute values of expressions of unknowns are kept until the values are known.',
     ['inputs'], 'all pairs from 28 numbers in 5 forms each, all triples, all pairs of vectors of up to 3 elements from 5 numbers, 9 expressions of unknowns under 8 operations',
     'Tests compare a few constants; the mixtures of signs, kinds and operand forms are many.',
     ['src/mccode_antlr/common/expression.py'], [('values', 'src/mccode_antlr/common/expression.py')],
     ENUM, 'Exhaustive within the menus; the oracle is the arithmetic of Python.')



def write():
    import importlib.util
    with open(VERIF / 'properties.jsonl', 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
            if p['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            if p['observe']:
                a['observe_at'] = list(p['observe'])
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(id=p['pid'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
    checks, na = [], []
    for p in P:
        if p['claimed']:
            checks.append(dict(property=p['pid'], quick_cmd=f"./run.sh {p['pid']} quick", thorough_cmd=f"./run.sh {p['pid']} thorough",
                               technique=p['technique'], level='model_checking', level_note=p['note']))
        else:
            na.append(dict(property=p['pid'], reason=p['na']))
    (VERIF / 'MANIFEST.json').write_text(json.dumps(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), indent=1) + '\n')


if __name__ == '__main__':
    write()
    print(len(P), 'properties', sum(p['claimed'] for p in P), 'claimed')
