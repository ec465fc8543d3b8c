"""Regenerates KNOWN_FINDINGS.json (fixed records need the commit ids of /repo)."""
import json, os, subprocess
MAP = [  # (property, start of commit subject, what failed)
 ('C15', 'fix: crystal router loses', 'crystal_router_setup on a 1-device mesh returned empty buffers (all records lost)'),
 ('C15', 'fix: crystal router fails on payloads', 'payload leaves with more than one axis per entry raised ValueError in CrystalData.__add__'),
 ('C04', 'fix: partitioned periodic meshes', 'unit_cube_mesh(2,2,periodic_dims=(0,),partitions=...).finalize: periodic image nodes got the coordinates of their representative'),
 ('C04', 'fix: physical masks miss', "periodic mesh, group listing only non-representative nodes: mask false on the group's nodes and images"),
 ('C16', 'fix: prefix min/max', 'pscan(maximum/minimum) of -inf/+inf returned finfo.min/max'),
 ('C16', 'fix: preduce of booleans', 'preduce(add) on bool returned an int count; pscan/jnp.add give logical or'),
 ('C23', 'fix: partners from different', 'read(periodic_cube.msh): 11 links pair nodes that no periodic entity declares'),
 ('C23', 'fix: periodic facets read', '3D periodic links in Gmsh circular order: refine_premesh fails'),
 ('C23', 'fix: Gmsh meshes without', 'gmsh_periodic with no facet-dimension entity, or ndim=1: KeyError / ValueError'),
 ('C24', 'fix: meshes partitioned', 'partition(...).finalize: AttributeError, partitions is a list'),
 ('C26', 'fix: Kolmogorov', '_solve_one_step: too many values to unpack; StokesSEM is not a jit argument'),
 ('C22', 'fix: vorticity takes', 'vorticity on a periodic mesh differs between periodic images'),
 ('C22', 'fix: vorticity has', 'vorticity of the rotation (-y, x) is -2 instead of 2'),
 ('C21', 'fix: pressure geometry', 'StokesSEM of order 2 (one pressure node per element): divergence and pressure mass identically zero'),
 ('C20', 'fix: first order', 'stokes_one_step(time_order=1) with one pressure: IndexError'),
 ('C02', 'fix: exchange of periodic', 'exchange of complex nodal values drops the imaginary part'),
 ('C14', 'fix: sdeint skips', 'sdeint(n=20000, ts=[0,1], float32): 2 increments skipped'),
 ('C07', 'fix: 3D refinement', 'two hexahedra sharing a face rotated by 90 degrees: face nodes permuted by the inverse orientation'),
 ('C07', 'fix: refining a 3D', 'refine_premesh(3D, 1 Gauss-Legendre node): ValueError in get_orderings_mapping'),
 ('C18', 'fix: distributed functions reject', "jit_distributed(f, static_argnames=('s',)) with f(s, x), f(x, s, *rest), f(**kw) of arrays: TypeError"),
  ('C10', 'fix: integrals on unevenly', 'integral of a gradient (or of 1/x[0]) on the smaller partition of an unevenly partitioned mesh is NaN'),
]
log = subprocess.check_output(['git','-C','/repo','log','--format=%h %s'], text=True).splitlines()
out = []
for pid, subj, what in MAP:
  c = [l.split()[0] for l in log if l.split(' ',1)[1].startswith(subj)]
  assert len(c) == 1, (subj, c)
  out.append(dict(property=pid, status='fixed', commit=c[0], what=what,
                  record=f'fixed: property={pid} {c[0]} {what}'))
out.append(dict(property='C23', status='open', kind='periodic file with other node tags', needle='instead of [[[1, 2], [0, 3]]]',
                what='read(MSH file with node tags 11, 12, 13, 14 and a periodic section): meshio subtracts 1 from the declared tags '
                     'instead of mapping them, so the periodic links of files whose node tags are not 1, 2, ... in file order are lost or wrong'))
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.json')
json.dump({'findings': out}, open(path, 'w'), indent=1)
