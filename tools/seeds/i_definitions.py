CV = 'src/mccode_antlr/comp/visitor.py'
CO = 'src/mccode_antlr/comp/comp.py'

DEFS = """
from mccode_antlr.reader import Reader
from mccode_antlr.reader.registry import InMemoryRegistry
def reader(**comps):
    reg = InMemoryRegistry('defs')
    for k, v in comps.items():
        reg.add(k + '.comp', v + '\\nEND\\n')
    return Reader(registries=[reg])
def code(blocks): return [b.source.strip() for b in blocks]
"""

seed('c20-copied-noacc', 'C20', [(CV,
'''        # add parameters, overwrite all provided details
        if ctx.NoAcc() is not None:
            self.state.no_acc()
''', '''        # add parameters, overwrite all provided details
        self.state.acc = ctx.NoAcc() is None
''')], DEFS + """
r = reader(B='DEFINE COMPONENT B\\nNOACC', A='DEFINE COMPONENT A COPY B')
check(not r.get_component('A').acc)
""", 'a copy of a NOACC component, which is not NOACC itself', 'the copy is offered to accelerators, where its code can not run')

seed('c20-copy-shares', 'C20', [(CV,
'''        from copy import deepcopy
        new_name''', '''        from copy import copy
        new_name'''), (CV,
'''        self.state = deepcopy(copy_from_comp)
''', '''        self.state = copy(copy_from_comp)
''')], DEFS + """
r = reader(B='DEFINE COMPONENT B\\nMETADATA text info %{of B%}', A='DEFINE COMPONENT A COPY B')
b = r.get_component('B')
a = r.get_component('A')
check(b.metadata[0].source.name == 'B' and a.metadata[0].source.name == 'A', (a.metadata, b.metadata))
""", 'a copied definition with METADATA, and its original used after the copy was read', 'the METADATA of the original is said to be that of the copy')

seed('c20-finally-extension', 'C20', [(CV,
'''        blocks = self.parent.get_component(str(ctx.Identifier())).final
        if ctx.Extend() is not None:
            blocks = [x for x in blocks]
            blocks.append(self.visit(ctx.unparsed_block()))
''', '''        blocks = list(self.parent.get_component(str(ctx.Identifier())).final)
        if ctx.Extend() is not None:
            # clean up in the opposite order of the initialisation
            blocks.insert(0, self.visit(ctx.unparsed_block()))
''')], DEFS + """
r = reader(B='DEFINE COMPONENT B\\nFINALLY %{first%}', A='DEFINE COMPONENT A\\nFINALLY COPY B EXTEND %{second%}')
check(code(r.get_component('A').final) == ['first', 'second'], r.get_component('A').final)
""", 'FINALLY COPY with EXTEND', 'the extending code runs before the copied code')

seed('c20-copy-of-copied-section', 'C20', [(CV,
'''        blocks = self.parent.get_component(str(ctx.Identifier())).initialize
        if ctx.Extend() is not None:
            blocks = [x for x in blocks]
            blocks.append(self.visit(ctx.unparsed_block()))
''', '''        blocks = self.parent.get_component(str(ctx.Identifier())).initialize[:1]
        if ctx.Extend() is not None:
            blocks = [x for x in blocks]
            blocks.append(self.visit(ctx.unparsed_block()))
''')], DEFS + """
r = reader(D='DEFINE COMPONENT D\\nINITIALIZE %{one%}', B='DEFINE COMPONENT B\\nINITIALIZE COPY D EXTEND %{two%}', A='DEFINE COMPONENT A\\nINITIALIZE COPY B EXTEND %{three%}')
check(code(r.get_component('A').initialize) == ['one', 'two', 'three'], r.get_component('A').initialize)
""", 'INITIALIZE COPY of a component whose INITIALIZE is a copy with an extension itself', 'the extension in the middle is lost')

seed('c20-metadata-first', 'C20', [(CO,
'''        if any([x.name == m.name for x in self.metadata]):
            self.metadata = tuple([x for x in self.metadata if x.name != m.name])
        self.metadata += (m, )
''', '''        same = [x for x in self.metadata if x.name == m.name and x.mimetype == m.mimetype]
        self.metadata = tuple(x for x in self.metadata if x not in same) + (m, )
''')], DEFS + """
r = reader(B='DEFINE COMPONENT B\\nMETADATA text info %{of B%}', A='DEFINE COMPONENT A COPY B\\nMETADATA "application/json" info %{{}%}')
check([m.value for m in r.get_component('A').metadata] == ['{}'], r.get_component('A').metadata)
""", 'a copied definition which gives METADATA of the same name with another type', 'the metadata is there twice with the same name')

seed('c20-zero-vector', 'C20', [(CV,
'''                default = "NULL"
                if ctx.Identifier(1) is not None:
                    default = str(ctx.Identifier(1))
            value = Expr(Value(default, data_type=DataType.int, shape_type=ShapeType.vector))
''', '''                default = "NULL"
                if ctx.Identifier(1) is not None:
                    default = str(ctx.Identifier(1))
            value = Expr(Value(default, data_type=DataType.int if default is None else DataType.float, shape_type=ShapeType.vector))
''')], DEFS + """
r = reader(A='DEFINE COMPONENT A\\nSETTING PARAMETERS (int * k=NULL)')
check('int' in str(r.get_component('A').setting[0].value.data_type), r.get_component('A').setting)
""", 'an int * parameter with NULL as its default', 'the parameter is an array of double')
