SPECIFICATION Spec
CONSTANTS
  MaxW = 3
  MaxH = 3
INVARIANTS PlaceInv ApartInv ShapeInv StoreInv Emit
CHECK_DEADLOCK FALSE
