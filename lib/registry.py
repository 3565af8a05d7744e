import props_ast
import props_hash
import props_types

PROPS = {}
for m in (props_hash, props_ast, props_types):
    PROPS.update(m.PROPS)
