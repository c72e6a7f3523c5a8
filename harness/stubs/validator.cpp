// nothing needed: schema_validation.cpp itself is compiled against stubs/nlohmann/json-schema.hpp
