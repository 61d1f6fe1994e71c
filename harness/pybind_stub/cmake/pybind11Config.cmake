# Stand-in: pybind11_add_module builds a loadable module named after the target.
get_filename_component(VP_STUB "${CMAKE_CURRENT_LIST_DIR}/../include" ABSOLUTE)
foreach(t module pybind11 headers embed)
  if(NOT TARGET pybind11::${t})
    add_library(pybind11::${t} INTERFACE IMPORTED)
    set_target_properties(pybind11::${t} PROPERTIES INTERFACE_INCLUDE_DIRECTORIES "${VP_STUB}")
  endif()
endforeach()
function(pybind11_add_module target)
  set(src ${ARGN})
  list(REMOVE_ITEM src MODULE SHARED NO_EXTRAS THIN_LTO OPT_SIZE EXCLUDE_FROM_ALL)
  add_library(${target} MODULE ${src})
  target_link_libraries(${target} PRIVATE pybind11::module)
  set_target_properties(${target} PROPERTIES PREFIX "" SUFFIX ".so" CXX_STANDARD 17)
endfunction()
set(pybind11_FOUND TRUE)
