"""The code under test, imported from the repository's working tree."""
import optics3d as _o
import general_optics as go            # noqa: F401
import general as ge                   # noqa: F401
from Shapes import shapes as sh        # noqa: F401

Ray = _o.Ray
Optic = _o.Optic
Mirror = _o.Mirror
Lens = _o.Lens
Grating = _o.Grating
Detector = _o.Detector
Compound = _o.Compound
Annotation = _o.Annotation
Filter = _o.Filter
Window = _o.Window
Block = _o.Block
add_faerie_fire_rays = _o.add_faerie_fire_rays
get_index_at_point = _o.get_index_at_point
BinaryTree = go.BinaryTree
Sphere = sh.Sphere
Circle = sh.Circle
Plane = sh.Plane
Rectangle = sh.Rectangle
InfiniteCylinder = sh.InfiniteCylinder
