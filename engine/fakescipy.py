from . import fakesp as sparse
from . import fakelinalg as linalg
