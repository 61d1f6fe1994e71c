# Stand-in: the installed library.
if(NOT TARGET yaml-cpp::yaml-cpp)
  add_library(yaml-cpp::yaml-cpp INTERFACE IMPORTED GLOBAL)
  set_target_properties(yaml-cpp::yaml-cpp PROPERTIES INTERFACE_LINK_LIBRARIES "-lyaml-cpp")
endif()
set(yaml-cpp_FOUND TRUE)
