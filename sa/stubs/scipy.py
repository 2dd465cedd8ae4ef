"""Model of scipy.spatial.transform.Rotation (Rodrigues' formula)."""
import numpy as np


class Rotation:
    def __init__(self, matrix):
        self._matrix = matrix

    @classmethod
    def from_rotvec(cls, rotvec, degrees=False):
        v = np.array(rotvec, dtype=float)
        angle = np.linalg.norm(v)
        if degrees:
            v = v * np.pi / 180
            angle = angle * np.pi / 180
        n = v / angle
        K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
        return cls(np.eye(3) + np.sin(angle) * K + (1 - np.cos(angle)) * (K @ K))

    @classmethod
    def from_matrix(cls, matrix):
        return cls(np.array(matrix, dtype=float))

    def as_matrix(self):
        return self._matrix

    def apply(self, vectors, inverse=False):
        v = np.array(vectors, dtype=float)
        if inverse:
            return v @ self._matrix
        return v @ self._matrix.T

    def inv(self):
        return Rotation(self._matrix.T)
