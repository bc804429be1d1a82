------------------------------ MODULE MCBlocks ------------------------------
EXTENDS Blocks
CONSTANT MaxId
Bound == cid <= MaxId + 1
=============================================================================
