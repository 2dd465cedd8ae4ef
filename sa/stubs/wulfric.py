"""Model of wulfric 0.4 (the crystal-structure dependency of magnopy).

Analysed by the interpreter in place of the installed library; it follows the
documented behaviour of the classes that magnopy builds upon.
"""
from copy import deepcopy
from typing import Iterable

import numpy as np

TORADIANS = np.pi / 180
TODEGREES = 180 / np.pi
REL_TOL = 1e-4
ABS_TOL = 1e-8
ABS_TOL_ANGLE = 1e-4


def print_2d_array(*args, **kwargs):
    return "2d array"


def volume(*args):
    if len(args) == 1:
        cell = np.array(args[0])
    elif len(args) == 3:
        cell = np.array(args)
    else:
        raise ValueError("Unable to identify input.")
    return abs(np.linalg.det(cell))


def angle(v1, v2, radians=False):
    v1_norm = np.linalg.norm(v1)
    v2_norm = np.linalg.norm(v2)
    v1 = np.array(v1) / v1_norm
    v2 = np.array(v2) / v2_norm
    alpha = np.arccos(np.clip(np.dot(v1, v2), -1.0, 1.0))
    if radians:
        return alpha
    return alpha * TODEGREES


def absolute_to_relative(vector, basis):
    # the special case of a zero vector is a value of the general formula
    e1 = np.array(basis[0], dtype=float)
    e2 = np.array(basis[1], dtype=float)
    e3 = np.array(basis[2], dtype=float)
    v = np.array(vector, dtype=float)
    B = np.array([np.dot(e1, v), np.dot(e2, v), np.dot(e3, v)])
    A = np.array(
        [
            [np.dot(e1, e1), np.dot(e1, e2), np.dot(e1, e3)],
            [np.dot(e2, e1), np.dot(e2, e2), np.dot(e2, e3)],
            [np.dot(e3, e1), np.dot(e3, e2), np.dot(e3, e3)],
        ]
    )
    return np.linalg.solve(A, B)


class Atom:
    def __init__(self, name="X", position=(0, 0, 0), spin=None, magmom=None, g_factor=2.0, charge=None, index=None):
        self._name = "X"
        self.name = name
        self._index = None
        if index is not None:
            self.index = index
        self._position = None
        self.position = position
        self._g_factor = None
        self.g_factor = g_factor
        self._spin = None
        if spin is None and magmom is None:
            self.spin = (0, 0, 0)
        elif spin is None and magmom is not None:
            self.magmom = magmom
        elif spin is not None and magmom is None:
            self.spin = spin
        elif spin is not None and magmom is not None:
            if not np.allclose(float(g_factor) * np.array(spin), np.array(magmom)):
                raise ValueError("Spin and magmom parameters are not independent")
        self._charge = None
        if charge is not None:
            self.charge = charge
        self._type = None

    def __sa_key__(self):
        return ("Atom", self.name, self.index)

    def __hash__(self):
        return hash(str(self.name) + str(self.index))

    def __eq__(self, other):
        if not isinstance(other, Atom):
            raise TypeError("unsupported operand type(s) for ==")
        return self.name == other.name and self.index == other.index

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, new_name):
        if new_name.startswith("__") or new_name.endswith("__"):
            raise ValueError("Name of the atom is not valid.")
        self._name = str(new_name)
        self._type = None

    @property
    def type(self):
        return "X"

    @property
    def index(self):
        if self._index is None:
            raise ValueError("Index is not defined for the atom.")
        return self._index

    @index.setter
    def index(self, new_index):
        self._index = new_index

    @property
    def fullname(self):
        if self._index is None:
            return self.name
        return f"{self.name}__{self.index}"

    @property
    def position(self):
        return self._position

    @position.setter
    def position(self, new_position):
        try:
            new_position = np.array(new_position, dtype=float)
        except:
            raise ValueError("New position is not array-like")
        if new_position.shape != (3,):
            raise ValueError("New position has to be a 3 x 1 vector")
        self._position = new_position

    @property
    def g_factor(self):
        return self._g_factor

    @g_factor.setter
    def g_factor(self, new_value):
        try:
            new_value = float(new_value)
        except ValueError:
            raise ValueError("Expected something convertible to float (g-factor)")
        self._g_factor = new_value

    @property
    def spin(self):
        return np.linalg.norm(self._spin_vector)

    @spin.setter
    def spin(self, new_value):
        if isinstance(new_value, Iterable):
            try:
                new_value = np.array(new_value, dtype=float)
            except:
                raise ValueError("Expected array-like")
            if new_value.shape != (3,):
                raise ValueError("Expected (3,) array-like")
            self._spin_vector = new_value
        else:
            try:
                new_value = float(new_value)
            except ValueError:
                raise ValueError("Expected something convertible to float")
            self._spin_vector = np.array([0, 0, 1], dtype=float) * new_value

    @property
    def spin_direction(self):
        norm = np.linalg.norm(self._spin_vector)
        if norm != 0:
            return self._spin_vector / norm
        return np.zeros(3)

    @spin_direction.setter
    def spin_direction(self, new_value):
        factor = self.spin
        self.spin = new_value
        if self.spin != 0:
            self._spin_vector *= factor / self.spin

    @property
    def spin_vector(self):
        return self._spin_vector

    @spin_vector.setter
    def spin_vector(self, new_value):
        self.spin = new_value

    @property
    def magmom(self):
        return -self.g_factor * self.spin_vector

    @magmom.setter
    def magmom(self, new_value):
        self.spin = new_value
        self._spin_vector /= -self.g_factor

    @property
    def charge(self):
        if self._charge is None:
            raise ValueError("Charge is not defined for the atom.")
        return self._charge

    @charge.setter
    def charge(self, new_value):
        try:
            self._charge = float(new_value)
        except ValueError:
            raise ValueError("Expected something convertible to float")


class Lattice:
    # transformation to the standardized cell, the analysis chooses it
    _S_given = None

    def __init__(self, *args, eps_rel=REL_TOL, angle_tol=ABS_TOL_ANGLE, **kwargs):
        self._eps_rel = eps_rel
        self._angle_tol = angle_tol
        self._cell = None
        self._type = None
        self._kpoints = None
        self._standardized = False
        if "cell" in kwargs:
            cell = kwargs["cell"]
        elif "a1" in kwargs and "a2" in kwargs and "a3" in kwargs:
            cell = np.array([kwargs["a1"], kwargs["a2"], kwargs["a3"]])
        elif len(args) == 1:
            cell = np.array(args[0])
        elif len(args) == 3:
            cell = np.array(args)
        elif len(args) == 0 and len(kwargs) == 0:
            cell = np.eye(3)
        else:
            raise ValueError("Unable to identify input parameters.")
        self.cell = cell

    @property
    def cell(self):
        if self._cell is None:
            raise AttributeError("Cell is not defined for lattice")
        return np.array(self._cell)

    @cell.setter
    def cell(self, new_cell):
        try:
            new_cell = np.array(new_cell)
        except:
            raise ValueError("New cell is not array-like")
        if new_cell.shape != (3, 3):
            raise ValueError("New cell is not 3 x 3 matrix.")
        self._cell = new_cell
        self._type = None

    @property
    def a1(self):
        return self.cell[0]

    @property
    def a2(self):
        return self.cell[1]

    @property
    def a3(self):
        return self.cell[2]

    @property
    def a(self):
        return np.linalg.norm(self.cell[0])

    @property
    def b(self):
        return np.linalg.norm(self.cell[1])

    @property
    def c(self):
        return np.linalg.norm(self.cell[2])

    @property
    def alpha(self):
        return angle(self.a2, self.a3)

    @property
    def beta(self):
        return angle(self.a1, self.a3)

    @property
    def gamma(self):
        return angle(self.a1, self.a2)

    @property
    def unit_cell_volume(self):
        return volume(self.a1, self.a2, self.a3)

    @property
    def reciprocal_cell(self):
        cell = self.cell
        vol = volume(cell)
        return np.array(
            [
                2 * np.pi / vol * np.cross(cell[1], cell[2]),
                2 * np.pi / vol * np.cross(cell[2], cell[0]),
                2 * np.pi / vol * np.cross(cell[0], cell[1]),
            ]
        )

    @property
    def rcell(self):
        return self.reciprocal_cell

    @property
    def b1(self):
        return self.reciprocal_cell[0]

    @property
    def b2(self):
        return self.reciprocal_cell[1]

    @property
    def b3(self):
        return self.reciprocal_cell[2]

    @property
    def eps_rel(self):
        return self._eps_rel

    @eps_rel.setter
    def eps_rel(self, value):
        if value < 0:
            raise ValueError("Relative tolerance should be non-negative.")
        self._eps_rel = float(value)

    @property
    def angle_tol(self):
        return self._angle_tol

    @angle_tol.setter
    def angle_tol(self, value):
        if value < 0:
            raise ValueError("Angle tolerance should be non-negative.")
        self._angle_tol = float(value)

    @property
    def eps(self):
        return self._eps_rel * abs(self.unit_cell_volume) ** (1 / 3.0)

    @property
    def kpoints(self):
        if self._kpoints is None:
            self._kpoints = Kpoints(self.b1, self.b2, self.b3)
            for name, coordinates in (("G", [0, 0, 0]), ("X", [0.5, 0, 0]), ("M", [0.5, 0.5, 0]), ("R", [0.5, 0.5, 0.5])):
                self._kpoints.add_hs_point(name, self.S_matrix.T @ np.array(coordinates), "$" + name + "$")
            self._kpoints.path = "G-X-M|R-G"
        return self._kpoints

    @property
    def S_matrix(self):
        if self._S_given is None:
            return np.eye(3, dtype=float)
        return np.array(self._S_given, dtype=float)

    def standardize(self):
        self._cell = np.linalg.inv(self.S_matrix.T) @ self._cell
        self._standardized = True
        self._kpoints = None
        self._S_given = None

    def type(self, eps_rel=None, angle_tol=None):
        return "TRI"

    @property
    def variation(self):
        return "TRI"


class Kpoints:
    def __init__(self, b1, b2, b3, coordinates=None, names=None, labels=None, path=None, n=1):
        self.b1 = np.array(b1)
        self.b2 = np.array(b2)
        self.b3 = np.array(b3)
        if coordinates is None:
            coordinates = []
        if names is None:
            names = [f"K{i+1}" for i in range(len(coordinates))]
        if labels is None:
            labels = [name for name in names]
        elif len(labels) != len(coordinates):
            raise ValueError("Amount of labels does not match amount of points")
        self.hs_coordinates = dict([(names[i], np.array(coordinates[i])) for i in range(len(coordinates))])
        self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
        self.hs_names = names
        self._n = n
        self._path = None
        if path is None:
            path = "-".join(self.hs_names)
        self.path = path

    def add_hs_point(self, name, coordinates, label, relative=True):
        if name in self.hs_names:
            raise ValueError(f"Point '{name}' already defined.")
        if not relative:
            coordinates = absolute_to_relative(coordinates, np.array([self.b1, self.b2, self.b3]))
        self.hs_names.append(name)
        self.hs_coordinates[name] = np.array(coordinates)
        self.hs_labels[name] = label

    def remove_hs_point(self, name):
        if name in self.hs_names:
            self.hs_names.remove(name)
            del self.hs_coordinates[name]
            del self.hs_labels[name]

    @property
    def path(self):
        return self._path

    @path.setter
    def path(self, new_path):
        if isinstance(new_path, str):
            tmp_path = new_path.split("|")
            new_path = []
            for i in range(len(tmp_path)):
                subpath = tmp_path[i].split("-")
                if len(subpath) != 1:
                    new_path.append(subpath)
        for subpath in new_path:
            for point in subpath:
                if point not in self.hs_names:
                    raise ValueError(f"Point '{point}' is not defined. Defined points are:")
        self._path = new_path

    @property
    def path_string(self):
        return "|".join(["-".join(subpath) for subpath in self.path])

    @property
    def n(self):
        return self._n

    @n.setter
    def n(self, new_n):
        if not isinstance(new_n, int):
            raise ValueError("n has to be integer.")
        self._n = new_n

    @property
    def labels(self):
        labels = []
        for s_i, subpath in enumerate(self.path):
            if s_i != 0:
                labels[-1] += "|" + self.hs_labels[subpath[0]]
            else:
                labels.append(self.hs_labels[subpath[0]])
            for name in subpath[1:]:
                labels.append(self.hs_labels[name])
        return labels

    def _matrix(self, relative):
        if relative:
            return np.eye(3)
        return np.array([self.b1, self.b2, self.b3])

    def ticks(self, relative=False):
        cell = self._matrix(relative)
        ticks = []
        for s_i, subpath in enumerate(self.path):
            if s_i == 0:
                ticks.append(0)
            for i, name in enumerate(subpath[1:]):
                ticks.append(np.linalg.norm(self.hs_coordinates[name] @ cell - self.hs_coordinates[subpath[i]] @ cell) + ticks[-1])
        return np.array(ticks)

    def points(self, relative=False):
        cell = self._matrix(relative)
        points = []
        for subpath in self.path:
            for i in range(len(subpath) - 1):
                a = self.hs_coordinates[subpath[i]] @ cell
                b = self.hs_coordinates[subpath[i + 1]] @ cell
                for x in range(self._n + 2):
                    points.append(a + (b - a) * x / (self._n + 1))
        return np.array(points)

    def flatten_points(self, relative=False):
        cell = self._matrix(relative)
        points = []
        base = 0
        for subpath in self.path:
            for i in range(len(subpath) - 1):
                a = self.hs_coordinates[subpath[i]] @ cell
                b = self.hs_coordinates[subpath[i + 1]] @ cell
                d = np.linalg.norm(b - a)
                for x in range(self._n + 2):
                    points.append(base + d * x / (self._n + 1))
                base = base + d
        return np.array(points)


class Crystal(Lattice):
    def __init__(self, lattice=None, atoms=None, relative=True, **kwargs):
        self.atoms = []
        if lattice is None:
            if len(kwargs) == 0:
                kwargs["cell"] = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
        else:
            kwargs = {}
            kwargs["cell"] = lattice.cell
        super().__init__(**kwargs)
        if atoms is not None:
            for a in atoms:
                self.add_atom(a, relative=relative)

    def standardize(self):
        S = self.S_matrix
        super().standardize()
        for atom in self.atoms:
            atom.position = S @ atom.position

    def __iter__(self):
        return CrystalIterator(self)

    def __contains__(self, atom):
        if isinstance(atom, str):
            try:
                atom = self.get_atom(atom, return_all=True)
                return True
            except ValueError:
                return False
        return atom in self.atoms

    def __len__(self):
        return self.atoms.__len__()

    def __getitem__(self, name):
        return self.get_atom(name, return_all=True)

    def __getattr__(self, name):
        if name in ["__setstate__"]:
            raise AttributeError(name)
        try:
            atom = self.get_atom(name=name)
            return atom
        except ValueError:
            raise AttributeError(f"'Crystal' object has either none or more than one '{name}' atoms.")

    @property
    def lattice(self):
        return Lattice(self.cell)

    def copy(self):
        return deepcopy(self)

    def add_atom(self, new_atom=None, relative=True, **kwargs):
        if isinstance(new_atom, str):
            kwargs["name"] = new_atom
            new_atom = None
        if new_atom is None:
            new_atom = Atom(**kwargs)
        if not isinstance(new_atom, Atom):
            raise TypeError("New atom is not an Atom.")
        if new_atom._index is None:
            new_atom.index = len(self.atoms) + 1
        if not relative:
            new_atom.position = absolute_to_relative(new_atom.position, self.cell)
        if new_atom not in self.atoms:
            self.atoms.append(new_atom)
        else:
            raise ValueError("Atom is already in the crystal.")

    def remove_atom(self, atom, index=None):
        if isinstance(atom, str):
            atoms = self.get_atom(atom, index=index, return_all=True)
        else:
            atoms = [atom]
        for atom in atoms:
            self.atoms.remove(atom)

    def get_atom(self, name, index=None, return_all=False):
        atoms = []
        if "__" in name and index is None:
            name, index = name.split("__")
            index = int(index)
        for atom in self.atoms:
            if atom.name == name:
                if index is None or atom.index == index:
                    atoms.append(atom)
        if len(atoms) == 0:
            raise ValueError(f"No match found for name = {name}, index = {index}")
        elif len(atoms) == 1:
            if return_all:
                return atoms
            return atoms[0]
        elif not return_all:
            raise ValueError(f"Multiple matches found for name = {name}, index = {index}")
        return atoms

    def get_atom_coordinates(self, atom, R=(0, 0, 0), index=None, relative=True):
        if isinstance(atom, str):
            atom = self.get_atom(atom, index=index)
        elif atom not in self.atoms:
            raise ValueError("There is no such atom in the crystal.")
        rel_coordinates = np.array(R + atom.position)
        if relative:
            return rel_coordinates
        return rel_coordinates @ self.cell

    def get_vector(self, atom1, atom2, R=(0, 0, 0), index1=None, index2=None, relative=False):
        coord1 = self.get_atom_coordinates(atom1, index=index1, relative=relative)
        coord2 = self.get_atom_coordinates(atom2, R, index=index2, relative=relative)
        return coord2 - coord1

    def get_distance(self, atom1, atom2, R=(0, 0, 0), index1=None, index2=None, relative=False):
        return np.linalg.norm(
            self.get_vector(atom1, atom2, R, index1=index1, index2=index2, relative=relative)
        )


class CrystalIterator:
    def __init__(self, crystal):
        self._list = crystal.atoms
        self._index = 0

    def __next__(self):
        if self._index < len(self._list):
            result = self._list[self._index]
            self._index += 1
            return result
        raise StopIteration

    def __iter__(self):
        return self


constants = None
geometry = None
