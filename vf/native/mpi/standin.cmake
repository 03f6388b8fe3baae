# Included right after project(stempy), for the build with MPI: find_package()
# of MPI and BigMPI gives the stand-in of this directory.
include("${CMAKE_CURRENT_LIST_DIR}/../../pybind11_from_apt.cmake")
set(_vf_mpi "${CMAKE_CURRENT_LIST_DIR}")
include_directories(SYSTEM "${CMAKE_CURRENT_LIST_DIR}")
macro(find_package name)
  if("${name}" STREQUAL "MPI" OR "${name}" STREQUAL "BigMPI")
    foreach(_t MPI::MPI_C MPI::MPI_CXX bigmpi::bigmpi)
      if(NOT TARGET ${_t})
        add_library(${_t} SHARED IMPORTED GLOBAL)
        set_target_properties(${_t} PROPERTIES
          IMPORTED_LOCATION "${VF_MPI_LIB}"
          INTERFACE_INCLUDE_DIRECTORIES "${_vf_mpi}")
      endif()
    endforeach()
    set(${name}_FOUND TRUE)
  else()
    _find_package(${ARGV})
  endif()
endmacro()
