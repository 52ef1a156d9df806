SPECIFICATION Spec
CONSTANTS
  MaxW = 5
  MaxH = 5
INVARIANTS PlaceInv ApartInv ShapeInv StoreInv Emit
CHECK_DEADLOCK FALSE
