# Included by CMake right after project(Peridigm) when the checks configure the build.
# Leaves Peridigm_ExodusDiscretization.cpp out (its dependency is not installed) and adds the drivers of
# /verif/harness as extra executables linked like the Peridigm program itself.
set(VERIF_EXO_CTOR "-Wl,--defsym=_ZN10PeridigmNS20ExodusDiscretizationC1ERKN7Teuchos3RCPIK11Epetra_CommEERKNS2_INS1_13ParameterListEEE=0")
function(verif_targets)
  get_target_property(sources PeridigmLib SOURCES)
  list(FILTER sources EXCLUDE REGEX "/Peridigm_ExodusDiscretization\\.cpp$")
  set_property(TARGET PeridigmLib PROPERTY SOURCES ${sources})
  set_property(TARGET Peridigm APPEND PROPERTY LINK_OPTIONS "${VERIF_EXO_CTOR}")
  get_target_property(libs Peridigm LINK_LIBRARIES)
  get_target_property(incs Peridigm INCLUDE_DIRECTORIES)
  file(GLOB drivers ${VERIF_HARNESS}/*.cpp)
  foreach(d ${drivers})
    get_filename_component(n ${d} NAME_WE)
    add_executable(${n} EXCLUDE_FROM_ALL ${d})
    set_target_properties(${n} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/src)
    target_link_libraries(${n} ${libs})
    if(incs)
      target_include_directories(${n} PRIVATE ${incs})
    endif()
    target_link_options(${n} PRIVATE "${VERIF_EXO_CTOR}")
  endforeach()
endfunction()
cmake_language(DEFER CALL verif_targets)
