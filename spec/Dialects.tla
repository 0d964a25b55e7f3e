-------------------------------- MODULE Dialects --------------------------------
(* The standard dialects: the keywords of each vocabulary, and the vocabularies *)
(* of each metaschema.                                                          *)
EXTENDS Sequences

Applicator == <<"allOf", "anyOf", "oneOf", "not", "if", "then", "else", "dependentSchemas", "items", "contains",
                "properties", "patternProperties", "additionalProperties", "propertyNames">>
Validation == <<"type", "enum", "const", "multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum",
                "maxLength", "minLength", "pattern", "maxItems", "minItems", "uniqueItems", "maxContains", "minContains",
                "maxProperties", "minProperties", "required", "dependentRequired">>
MetaData == <<"title", "description", "default", "deprecated", "readOnly", "writeOnly", "examples">>
Content == <<"contentMediaType", "contentEncoding", "contentSchema">>
Core == <<"$schema", "$vocabulary", "$id", "$ref", "$anchor", "$defs", "$comment">>
Unevaluated == <<"unevaluatedItems", "unevaluatedProperties">>

Core19 == Core \o <<"$recursiveRef", "$recursiveAnchor">>
Core20 == Core \o <<"$dynamicRef", "$dynamicAnchor">>
Applicator19 == Applicator \o <<"additionalItems">> \o Unevaluated
Applicator20 == Applicator \o <<"prefixItems">>

StdKws == [x \in {"2019-09", "2020-12", "next"} |->
             IF x = "2019-09" THEN Core19 \o Applicator19 \o Validation \o <<"format">> \o MetaData \o Content
             ELSE Core20 \o Applicator20 \o Unevaluated \o Validation \o <<"format">> \o MetaData \o Content]
StdFam == [x \in {"2019-09", "2020-12", "next"} |-> IF x = "2019-09" THEN "2019-09" ELSE "2020-12"]
Metas == {"https://json-schema.org/draft/2019-09/schema", "https://json-schema.org/draft/2020-12/schema",
          "https://json-schema.org/draft/next/schema"}
StdMeta == [x \in Metas |-> IF x = "https://json-schema.org/draft/2019-09/schema" THEN "2019-09"
                            ELSE IF x = "https://json-schema.org/draft/2020-12/schema" THEN "2020-12" ELSE "next"]
=============================================================================
