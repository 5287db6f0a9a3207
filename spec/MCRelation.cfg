SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS MapsOntoCells FacesFollowCells DofsArePermuted
