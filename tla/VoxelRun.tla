---- MODULE VoxelRun ----
EXTENDS VoxelMC
MCPts == {<<0,0,0>>, <<3,1,2>>, <<2,1,2>>, <<1,3,0>>, <<3,3,4>>}
MC6Pts == MCPts \cup {<<3,-1,2>>, <<0,0,3>>}
G2Pts == {-1, 0, 1, 2} \X {0, 1} \X {-1, 0, 1, 2}
G8Pts == {<<0,0,0>>, <<7,7,7>>, <<4,3,2>>, <<5,3,2>>, <<1,0,4>>, <<0,7,0>>, <<6,1,3>>, <<8,0,0>>, <<3,-1,2>>,
          <<2,5,7>>, <<3,5,7>>, <<2,4,6>>}
====
