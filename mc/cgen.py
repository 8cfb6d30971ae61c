"""A small stand-in for the McCode C runtime, and helpers to translate, compile and run instruments with the code under test.

The translator embeds the runtime files it finds in its registries.  The files below have the real runtime's interface
(names, types, semantics of the coordinate routines) and a main function which initialises, traces N particles and finishes.
"""
import contextlib, io, os, subprocess, itertools
from pathlib import Path
from . import env

CONFIG = dict(default_main=True, enable_trace=False, portable=True, include_runtime=True, embed_instrument_file=False)

H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define MCCODE_ANTLR_STUB 1
/* what particles hold before anything is set */
#ifdef GARBAGE
#define NOTHING 0x55
#else
#define NOTHING 0
#endif
enum instr_formal_types {instr_type_int, instr_type_string, instr_type_double, instr_type_char, instr_type_vector, instr_type_symbol};
struct mcinputtable_struct { char *name; void *par; enum instr_formal_types type; char *val; char *unit; };
extern struct mcinputtable_struct mcinputtable[];
extern int numipar;
extern char instrument_name[], instrument_source[];
struct metadata_table_struct { char *source; char *name; char *type; char *value; };
extern struct metadata_table_struct metadata_table[];
extern int num_metadata;
typedef unsigned long randstate_t;
#ifndef PI
#define PI 3.14159265358979323846
#endif
#define DEG2RAD (PI/180.0)
#define RAD2DEG (180.0/PI)
#define MPI_MASTER(statement) { statement; }
#define SIG_MESSAGE(msg)
#define DEBUG_INSTR()
#define DEBUG_INSTR_END()
#define DEBUG_COMPONENT(name, c, t)
#define DEBUG_ENTER()
#define DEBUG_LEAVE()
#define DEBUG_STATE()
#define DEBUG_COMP(c)
#define DEBUG_ABSORB()
#define DEBUG_SCATTER()
#define MAGNET_OFF
#define SCATTER do { DEBUG_SCATTER(); _particle->_scattered++; } while(0)
static double gpu_innerloop = 2147483647;
#ifndef DOTRACE
#define DOTRACE 0
#endif
static int mcdotrace = DOTRACE;
static FILE *siminfo_file = NULL;
#define _hash(x) (x)
#undef srandom
#define srandom(x) ((void)(x))
int mccode_main(int argc, char *argv[]);
int display(void); int init(void); int save(FILE *); int finally(void);
int _getcomp_index(char *compname);
Coords coords_set(MCNUM x, MCNUM y, MCNUM z);
Coords coords_add(Coords a, Coords b); Coords coords_sub(Coords a, Coords b); Coords coords_neg(Coords a);
void coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z);
double coords_len(Coords a); int coords_test_zero(Coords a);
void rot_set_rotation(Rotation t, double phx, double phy, double phz);
int rot_test_identity(Rotation t);
void rot_mul(Rotation t1, Rotation t2, Rotation t3); void rot_copy(Rotation dest, Rotation src);
void rot_transpose(Rotation src, Rotation dst); Coords rot_apply(Rotation t, Coords a);
void mccoordschange(Coords a, Rotation t, _class_particle *particle);
char *stracpy(char *d, const char *s, size_t n);
int siminfo_init(FILE *f) { return 0; }
void siminfo_close(void) {}
#define POS_A_COMP_INDEX(index) (instrument->_position_absolute[index])
#define POS_R_COMP_INDEX(index) (instrument->_position_relative[index])
#define mcdis_magnify(...)
'''

MCS_H = r'''
#define RNG_DUMMY 0
'''

R_C = r'''
Coords coords_set(MCNUM x, MCNUM y, MCNUM z) { Coords a; a.x = x; a.y = y; a.z = z; return a; }
Coords coords_add(Coords a, Coords b) { a.x += b.x; a.y += b.y; a.z += b.z; return a; }
Coords coords_sub(Coords a, Coords b) { a.x -= b.x; a.y -= b.y; a.z -= b.z; return a; }
Coords coords_neg(Coords a) { a.x = -a.x; a.y = -a.y; a.z = -a.z; return a; }
void coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z) { *x = a.x; *y = a.y; *z = a.z; }
double coords_len(Coords a) { return sqrt(a.x*a.x + a.y*a.y + a.z*a.z); }
int coords_test_zero(Coords a) { return a.x == 0 && a.y == 0 && a.z == 0; }
void rot_set_rotation(Rotation t, double phx, double phy, double phz) {
  if (phx == 0 && phy == 0 && phz == 0) { for (int i=0;i<3;i++) for (int j=0;j<3;j++) t[i][j] = i==j; return; }
  double cx = cos(phx), sx = sin(phx), cy = cos(phy), sy = sin(phy), cz = cos(phz), sz = sin(phz);
  t[0][0] = cy*cz; t[0][1] = sx*sy*cz + cx*sz; t[0][2] = sx*sz - cx*sy*cz;
  t[1][0] = -cy*sz; t[1][1] = cx*cz - sx*sy*sz; t[1][2] = sx*cz + cx*sy*sz;
  t[2][0] = sy; t[2][1] = -sx*cy; t[2][2] = cx*cy;
}
int rot_test_identity(Rotation t) {
  for (int i=0;i<3;i++) for (int j=0;j<3;j++) if (t[i][j] != (i==j ? 1.0 : 0.0)) return 0;
  return 1; }
void rot_mul(Rotation t1, Rotation t2, Rotation t3) { Rotation r;
  for (int i=0;i<3;i++) for (int j=0;j<3;j++) { r[i][j] = 0; for (int k=0;k<3;k++) r[i][j] += t1[i][k]*t2[k][j]; }
  memcpy(t3, r, sizeof(Rotation)); }
void rot_copy(Rotation dest, Rotation src) { memcpy(dest, src, sizeof(Rotation)); }
void rot_transpose(Rotation src, Rotation dst) { Rotation r; for (int i=0;i<3;i++) for (int j=0;j<3;j++) r[i][j] = src[j][i];
  memcpy(dst, r, sizeof(Rotation)); }
Coords rot_apply(Rotation t, Coords a) { Coords b;
  b.x = t[0][0]*a.x + t[0][1]*a.y + t[0][2]*a.z; b.y = t[1][0]*a.x + t[1][1]*a.y + t[1][2]*a.z;
  b.z = t[2][0]*a.x + t[2][1]*a.y + t[2][2]*a.z; return b; }
char *stracpy(char *d, const char *s, size_t n) { if (n) { strncpy(d, s, n); d[n-1] = '\0'; } return d; }
'''

MCS_C = r'''
int mcgravitation = 0;
_class_particle mcsetstate(double x, double y, double z, double vx, double vy, double vz, double t, double sx, double sy, double sz,
                           double p, int mcgravitation, void *mcMagnet, int allow_backprop) {
  _class_particle n; memset(&n, NOTHING, sizeof(n)); n._mctmp_a = n._mctmp_b = n._mctmp_c = 0; n._logic.dummy = 0; memset(n.randstate, 0, sizeof(n.randstate));
  n.x = x; n.y = y; n.z = z; n.vx = vx; n.vy = vy; n.vz = vz; n.t = t; n.sx = sx; n.sy = sy; n.sz = sz; n.p = p;
  n.mcgravitation = mcgravitation; n.mcMagnet = mcMagnet; n.allow_backprop = allow_backprop;
  n._uid = 0; n._index = 1; n._absorbed = 0; n._restore = 0; n._scattered = 0; n.flag_nocoordschange = 0;
  return n; }
void mccoordschange(Coords a, Rotation t, _class_particle *q) {
  Coords b = {q->x, q->y, q->z}, c = rot_apply(t, b); b = coords_add(c, a); q->x = b.x; q->y = b.y; q->z = b.z;
  Coords v = {q->vx, q->vy, q->vz}; v = rot_apply(t, v); q->vx = v.x; q->vy = v.y; q->vz = v.z; }
'''

MCX_C = r'''
int mcgravitation = 0;
_class_particle mcsetstate(double x, double y, double z, double kx, double ky, double kz, double phi, double t, double Ex, double Ey,
                           double Ez, double p, int mcgravitation, void *mcMagnet, int allow_backprop) {
  _class_particle n; memset(&n, NOTHING, sizeof(n)); n._mctmp_a = n._mctmp_b = n._mctmp_c = 0; n._logic.dummy = 0; memset(n.randstate, 0, sizeof(n.randstate));
  n.x = x; n.y = y; n.z = z; n.kx = kx; n.ky = ky; n.kz = kz; n.phi = phi; n.t = t; n.Ex = Ex; n.Ey = Ey; n.Ez = Ez; n.p = p;
  n._uid = 0; n._index = 1; n._absorbed = 0; n._restore = 0; n._scattered = 0; n.flag_nocoordschange = 0;
  return n; }
void mccoordschange(Coords a, Rotation t, _class_particle *q) {
  Coords b = {q->x, q->y, q->z}, c = rot_apply(t, b); b = coords_add(c, a); q->x = b.x; q->y = b.y; q->z = b.z;
  Coords v = {q->kx, q->ky, q->kz}; v = rot_apply(t, v); q->kx = v.x; q->ky = v.y; q->kz = v.z; }
'''

FUNNEL = r'''
#ifdef FUNNEL
/* moves the living particles to the front of the buffer and, when asked to, copies them to fill up the buffer */
long sort_absorb_last(_class_particle *particles, _class_particle *pbuffer, long len, long buffer_len, int flag_split, long *multiplier) {
  long alive = 0;
  for (long i = 0; i < len; i++) if (!particles[i]._absorbed) pbuffer[alive++] = particles[i];
  memcpy(particles, pbuffer, alive * sizeof(_class_particle));
  long mult = alive ? buffer_len / alive : 1;
  if (!flag_split || mult < 1) mult = 1;
  for (long m = 1; m < mult; m++) for (long i = 0; i < alive; i++) particles[m*alive + i] = particles[i];
  for (long i = 0; i < alive*mult; i++) particles[i].p /= mult;
  *multiplier = mult;
  return alive*mult; }
#endif
'''

MAIN = r'''
int mccode_main(int argc, char *argv[]) {
  unsigned long long n = argc > 1 ? strtoull(argv[1], NULL, 10) : 1;
  for (int i = 0; i < numipar; i++) {
    const char *v = mcinputtable[i].val;
    for (int k = 2; k < argc; k++) { size_t l = strlen(mcinputtable[i].name);
      if (!strncmp(argv[k], mcinputtable[i].name, l) && argv[k][l] == '=') v = argv[k] + l + 1; }
    switch (mcinputtable[i].type) {
      case instr_type_double: *(double *) mcinputtable[i].par = strtod(v, NULL); break;
      case instr_type_int: *(int *) mcinputtable[i].par = (int) strtol(v, NULL, 10); break;
      case instr_type_string: *(char **) mcinputtable[i].par = (char *) v; break;
      default: printf("BADTYPE %s\n", mcinputtable[i].name);
    }
  }
  init();
#ifdef DUMP_PARAMETERS
  for (int i = 0; i < numipar; i++) printf("INPUT %s type=%d val=[%s] unit=[%s]\n", mcinputtable[i].name, (int) mcinputtable[i].type, mcinputtable[i].val, mcinputtable[i].unit);
  for (int i = 0; i < num_metadata; i++) printf("METADATA [%s] [%s] [%s] [%s]\n", metadata_table[i].source, metadata_table[i].name, metadata_table[i].type, metadata_table[i].value);
#endif
#ifdef DUMP_POSITIONS
  DUMP_POSITIONS
#endif
#ifdef FUNNEL
  gpu_innerloop = n;
  raytrace_all_funnel(n, 1);
#else
  raytrace_all(n, 1);
#endif
  finally();
  return 0; }
'''


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as s:
        yield s


def write_runtime(folder: Path):
    folder.mkdir(parents=True, exist_ok=True)
    (folder / 'mccode-r.h.in').write_text(H)
    (folder / 'mcstas-r.h').write_text(MCS_H)
    (folder / 'mcxtrace-r.h').write_text(MCS_H)
    (folder / 'mccode-r.c').write_text(R_C)
    (folder / 'mcstas-r.c').write_text(MCS_C + FUNNEL)
    (folder / 'mcxtrace-r.c').write_text(MCX_C + FUNNEL)
    (folder / 'metadata-r.c').write_text('/* metadata */\n')
    (folder / 'mccode_main.c').write_text(MAIN)


_LIBC = None


def libc():
    """The registry holding the stand-in runtime"""
    global _LIBC
    if _LIBC is None:
        from mccode_antlr.reader import LocalRegistry
        folder = env.SCRATCH / 'runtime'
        if not (folder / 'mccode_main.c').exists():
            write_runtime(folder)
        _LIBC = LocalRegistry('libc', str(folder))
    return _LIBC


def local(name, files: dict):
    """A folder registry with the given file contents"""
    from mccode_antlr.reader import LocalRegistry
    folder = env.SCRATCH / 'registries' / name
    folder.mkdir(parents=True, exist_ok=True)
    for k, v in files.items():
        f = folder / k
        f.parent.mkdir(parents=True, exist_ok=True)
        if not f.exists() or f.read_text() != v:
            f.write_text(v)
    return LocalRegistry(name, str(folder))


def generator(mcstas=True):
    from mccode_antlr.translators import target
    return target.MCSTAS_GENERATOR if mcstas else target.MCXTRACE_GENERATOR


def parse(text, registries):
    from mccode_antlr.loader.loader import parse_mccode_instr
    with quiet():
        return parse_mccode_instr(text, list(registries) + [libc()], source='test.instr')


def translate(instr, mcstas=True, **config):
    from mccode_antlr.compiler.c import instrument_source
    with quiet():
        return instrument_source(instr, generator(mcstas), dict(CONFIG, **config))


_count = itertools.count()


class CompileError(Exception):
    pass


def build(source, flags=()):
    """Compile generated C with the system compiler; returns the path of the executable"""
    exe = env.SCRATCH / 'work' / f'p{os.getpid()}-{next(_count)}'
    r = subprocess.run(['gcc', '-O0', '-w', '-std=gnu11', '-x', 'c', '-', '-o', str(exe), *flags, '-lm'], input=source, text=True,
                       capture_output=True, timeout=120)
    if r.returncode:
        raise CompileError('\n'.join(x for x in r.stderr.split('\n') if 'error' in x)[:600])
    return exe


def execute(exe, n=1, args=(), timeout=20, keep=False):
    """Run in its own scratch folder; returns (return code, stdout)"""
    try:
        r = subprocess.run([str(exe), str(n), *args], text=True, capture_output=True, timeout=timeout, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 'timeout', ''
    finally:
        if not keep:
            with contextlib.suppress(OSError):
                exe.unlink()
