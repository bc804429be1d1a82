package config

// Stand-in for the main-net genesis constant, which is not part of this copy of
// the repository. It enters the build through -overlay only.
const genesisJson = mockGenesisJson
