SPECIFICATION Spec
PROPERTIES Current Fresh NewOnly Child Kept Once InputsKept
VIEW View
CHECK_DEADLOCK FALSE
