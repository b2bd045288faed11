REAL = 'floating point treated as real arithmetic; identities are checked to the stated absolute tolerance'
GEOM = 'building geometry, layer build-ups and response factors are concrete (a few fixed buildings of different shape)'
