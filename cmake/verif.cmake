# Included by the project's own project() call (CMAKE_PROJECT_INCLUDE) and deferred to the end of the top-level
# CMakeLists.txt.  Lets the Arrow-free parts of HDK (everything but ArrowStorage and the Arrow conversion of results)
# be configured straight from /repo, and adds the harnesses of /verif.
if(NOT CMAKE_SOURCE_DIR STREQUAL CMAKE_CURRENT_SOURCE_DIR)
  return()
endif()
set(VERIF_DIR ${CMAKE_CURRENT_LIST_DIR}/..)
include_directories(BEFORE ${CMAKE_CURRENT_LIST_DIR}/stubs)

function(verif_setup)
  get_target_property(s ResultSet SOURCES)
  list(REMOVE_ITEM s ArrowResultSet.cpp ArrowResultSetConverter.cpp)
  set_target_properties(ResultSet PROPERTIES SOURCES "${s}")
  # QueryEngine's sources rely on their precompiled header being force-included (PCH is off: ccache).
  target_compile_options(QueryEngine PRIVATE -include QueryEngine/Execute.h)
  include(${VERIF_DIR}/cmake/harness.cmake)
endfunction()
cmake_language(DEFER CALL verif_setup)
