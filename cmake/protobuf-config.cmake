# The distribution's protobuf has no CMake package config, and /repo asks for
# find_package(Protobuf CONFIG): forward to CMake's own FindProtobuf module.
include("${CMAKE_ROOT}/Modules/FindProtobuf.cmake")
