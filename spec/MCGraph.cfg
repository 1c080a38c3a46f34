SPECIFICATION Spec
CONSTANTS MaxParts = 4  Full = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS UniqueIds LookupExact LayoutTight FinalizedIsSound CachesFollow
PROPERTIES OnlyAppends StructureDropsAll RefusedChangesNothing RevMonotone
