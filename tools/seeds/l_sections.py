SV = 'src/mccode_antlr/translators/c_save.py'
FI = 'src/mccode_antlr/translators/c_finally.py'
DI = 'src/mccode_antlr/translators/c_display.py'
NI = 'src/mccode_antlr/translators/c_initialise.py'
ND = 'src/mccode_antlr/translators/c_decls.py'
MD = 'src/mccode_antlr/common/metadata.py'
CC = 'src/mccode_antlr/comp/comp.py'
CV = 'src/mccode_antlr/comp/visitor.py'
NN = 'src/mccode_antlr/instr/instr.py'
NS = 'src/mccode_antlr/instr/instance.py'

META = """
def comp(name, meta, base=None):
    return 'DEFINE COMPONENT ' + name + (' COPY ' + base if base else '') + '\\n' + meta + ('' if base else 'TRACE\\n%{\\n%}\\n') + 'END\\n'
SHOW = '''FINALLY %{
for (int i = 0; i < num_metadata; i++) { printf("META %s|%s|%s|", metadata_table[i].source, metadata_table[i].name, metadata_table[i].type);
  for (const char *c = metadata_table[i].value; *c; c++) printf("%02x", *(const unsigned char *) c); printf("\\\\n"); }
%}
'''
def table(text, files, change=lambda x: x):
    instr = change(parse(text, [local('m', files)]))
    rc, out = execute(build(translate(instr)), 1)
    check(rc == 0, rc)
    rows = [l[5:].split('|') for l in out.split('\\n') if l.startswith('META ')]
    return [(s, n, t, bytes.fromhex(v).decode()) for s, n, t, v in rows]
"""

seed('c26-override-source', 'C26', [(NS,
'''        md = {m.name: m for m in self.type.collect_metadata()}
''', '''        md = {m.name: m for m in self.type.collect_metadata() if all(m.mimetype == x.mimetype for x in self.metadata if x.name == m.name)}
'''), (NS,
'''        md.update({m.name: m for m in self.metadata})
''', '''        md = {m.name: md.pop(m.name, m) if m.value.strip() == '' else m for m in self.metadata} | md
''')], META + """
t = table('DEFINE INSTRUMENT i()\\nTRACE\\nCOMPONENT c = T() AT (0,0,0) ABSOLUTE METADATA text note %{ %}\\n' + SHOW + 'END\\n', {'T.comp': comp('T', 'METADATA text note %{of T%}\\n')})
check(t == [('c', 'note', 'text', ' ')], t)
""", 'an instance which replaces metadata of its component by blank metadata', 'the metadata of the component is offered')

seed('c26-second-instance', 'C26', [(NN,
'''        return tuple(m for inst in self.components for m in inst.collect_metadata()) + self.metadata
''', '''        collected = {}
        for inst in self.components:
            for m in inst.collect_metadata():
                # all instances of a component have the same metadata
                collected.setdefault((inst.type.name, m.name), m)
        return tuple(collected.values()) + self.metadata
''')], META + """
t = table('DEFINE INSTRUMENT i()\\nTRACE\\nCOMPONENT c = T() AT (0,0,0) ABSOLUTE\\nCOMPONENT d = T() AT (0,0,0) ABSOLUTE METADATA text note %{of d%}\\n' + SHOW + 'END\\n', {'T.comp': comp('T', 'METADATA text note %{of T%}\\n')})
check(set(t) == {('T', 'note', 'text', 'of T'), ('d', 'note', 'text', 'of d')}, t)
""", 'a second instance of a component, with metadata of its own which has the name of the metadata of the component', 'the metadata of the second instance is missing')

seed('c26-count', 'C26', [(ND,
'''        lines.extend(['  {"", "", "", ""}', '};', f'int num_metadata = {len(metadata)};'])
''', '''        lines.extend(['  {"", "", "", ""}', '};', f'int num_metadata = {len({(m.name, m.mimetype) for m in metadata})};'])
''')], META + """
t = table('DEFINE INSTRUMENT i()\\nTRACE\\nCOMPONENT c = T() AT (0,0,0) ABSOLUTE METADATA text note %{1%}\\nCOMPONENT d = T() AT (0,0,0) ABSOLUTE METADATA text note %{2%}\\n' + SHOW + 'END\\n', {'T.comp': comp('T', '')})
check(len(t) == 2, t)
""", 'two instances which both have metadata of one name', 'the last metadata of the table are not counted')

seed('c26-copy-order', 'C26', [(CC,
'''        if any([x.name == m.name for x in self.metadata]):
            self.metadata = tuple([x for x in self.metadata if x.name != m.name])
        self.metadata += (m, )
''', '''        if any([x.name == m.name and x.mimetype == m.mimetype for x in self.metadata]):
            self.metadata = tuple([x for x in self.metadata if x.name != m.name])
        if all(x.name != m.name for x in self.metadata):
            self.metadata += (m, )
''')], META + """
t = table('DEFINE INSTRUMENT i()\\nTRACE\\nCOMPONENT c = U() AT (0,0,0) ABSOLUTE\\n' + SHOW + 'END\\n',
          {'T.comp': comp('T', 'METADATA text note %{of T%}\\n'), 'U.comp': comp('U', 'METADATA "a/b" note %{of U%}\\n', 'T')})
check(t == [('U', 'note', 'a/b', 'of U')], t)
""", 'a copied definition which states the metadata of the original again with another type', 'the metadata stays that of the original')

SEC = """
def comp(name, blocks, head=''):
    return 'DEFINE COMPONENT ' + name + '\\n' + head + ''.join(k + ' %{ ' + v + ' %}\\n' for k, v in blocks.items()) + 'END\\n'
def say(sec):
    return 'printf("OUT ' + sec + ' %s\\\\n", _comp->_name);'
def lines(text, files, flags=(), n=1):
    return [l[4:] for l in run(text, [local('s', files)], n, (), flags) if l.startswith('OUT ')]
def instr(names, head='', tail=''):
    return 'DEFINE INSTRUMENT i()\\n' + head + 'TRACE\\n' + ''.join('COMPONENT %s = %s() AT (0,0,%d) ABSOLUTE\\n' % (a, b, i) for i, (a, b) in enumerate(names)) + tail + 'END\\n'
"""

seed('c27-initialize-placed', 'C27', [(NI,
'''    for comp in source.components:
        lines.append(f'  _{comp.name}_setpos(); /* type {comp.type.name} */')

    lines.append('/* call iteratively all components INITIALIZE */')
    for comp in source.components:
        if len(comp.type.initialize):
''', '''    for comp in source.components:
        lines.append(f'  _{comp.name}_setpos(); /* type {comp.type.name} */')
        if len(comp.type.initialize):
''')], SEC + """
files = {'A.comp': comp('A', dict(INITIALIZE='printf("OUT %g\\\\n", getdistance("a", "b"));', TRACE=';'))}
got = lines(instr([('a', 'A'), ('x', 'A'), ('y', 'A'), ('b', 'A')]), files)
check(got == ['3'] * 4, got)
""", 'INITIALIZE code which asks for the place of a later component', 'components are initialised before all components are placed')

seed('c27-save-grouped', 'C27', [(SV,
'''    for comp in source.components:
        if len(comp.type.save):
            lines.append(f'  class_{comp.type.name}_save(&_{comp.name}_var);')
''', '''    for comp_type in source.component_types():
        for comp in source.components:
            if comp.type.name == comp_type.name and len(comp.type.save):
                lines.append(f'  class_{comp.type.name}_save(&_{comp.name}_var);')
''')], SEC + """
files = {k + '.comp': comp(k, dict(TRACE=';', SAVE=say('save'))) for k in 'AB'}
got = lines(instr([('a', 'A'), ('b', 'B'), ('c', 'A')]), files)
check(got == ['save a', 'save b', 'save c'], got)
""", 'two components of one kind with one of another kind between them, all with SAVE code', 'results are saved in another order')

seed('c27-final-blocks', 'C27', [(FI,
'''    for block in comp.final:
        lines.append(block.to_c())

    lines.extend([
        cogen_parameter_undef(comp, declared_parameters),
''', '''    for block in comp.final[-1:] if comp.final[0].line == comp.final[-1].line else comp.final:
        lines.append(block.to_c())

    lines.extend([
        cogen_parameter_undef(comp, declared_parameters),
''')], SEC + """
files = {'A.comp': comp('A', dict(FINALLY=say('A'))), 'B.comp': 'DEFINE COMPONENT B COPY A\\nFINALLY COPY A EXTEND %{ ' + say('B') + ' %}\\nEND\\n'}
got = lines(instr([('b', 'B')]), files)
check(got == ['A b', 'B b'], got)
""", 'a FINALLY section which extends that of another definition, both at the same line of their files', 'the copied code does not run')

seed('c27-display-line', 'C27', [(DI,
'''        if len(comp.type.display):
            lines.append(f'  class_{comp.type.name}_display(&_{comp.name}_var);')
        else:
''', '''        if len(comp.type.display):
            lines.append(f'  class_{comp.type.name}_display(&_{comp.name}_var);')
        elif len(comp.type.trace):
''')], SEC + """
files = {'A.comp': comp('A', {}), 'B.comp': comp('B', dict(TRACE=';'))}
got = [l for l in run(instr([('a', 'A'), ('b', 'B')]), [local('s', files)], 1, (), ['-DDOTRACE=1']) if l.startswith('MCDISPLAY')]
check(got == ['MCDISPLAY: start', 'MCDISPLAY: component a', 'MCDISPLAY: component b', 'MCDISPLAY: end'], got)
""", 'a component with neither MCDISPLAY nor TRACE code, displayed', 'it is not in the list of displayed components')

seed('c27-distance-self', 'C27', [(NI,
'''  if (first_index >= current_index || second_index >= current_index) {
''', '''  if (first_index > current_index || second_index >= current_index - 1) {
''')], SEC + """
files = {'A.comp': comp('A', dict(INITIALIZE='printf("OUT %s %g\\\\n", _comp->_name, _comp->_position_absolute.z);'))}
text = 'DEFINE INSTRUMENT i()\\nTRACE\\nCOMPONENT a = A() AT (0,0,1) ABSOLUTE\\nCOMPONENT b = A() AT (0,0,4) ABSOLUTE\\nCOMPONENT c = A() AT (0,0,setpos_getdistance("a", "b")) ABSOLUTE\\nEND\\n'
got = lines(text, files)
check(got == ['a 1', 'b 4', 'c 3'], got)
""", 'a position which is the distance to the component right before', 'the distance is taken as unknown')
