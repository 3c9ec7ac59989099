SPECIFICATION Spec
CONSTANT Types = {"VARCHAR", "INTEGER", "DOUBLE", "BOOLEAN", "TIMESTAMP", "ARRAY"}
INVARIANT NullableIsWeaker AnyIsWeaker MissingIsRefused ExcessIsRefused Independent
