set(H ${VERIF_DIR}/harness)
function(verif_harness name)
  cmake_parse_arguments(A "" "" "SRC;LIBS" ${ARGN})
  add_executable(${name} ${A_SRC})
  target_include_directories(${name} BEFORE PRIVATE ${H})
  target_link_libraries(${name} ${A_LIBS} ${Boost_LIBRARIES} TBB::tbb fmt pthread)
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/harness ENABLE_EXPORTS ON)
endfunction()
verif_harness(smoke SRC ${H}/qe/smoke.cpp LIBS QueryEngine QueryBuilder ConfigBuilder ResultSetRegistry ${llvm_libs})
verif_harness(h_dict SRC ${H}/base/dict.cpp LIBS StringDictionary Shared Utils Logger OSDependent)
verif_harness(h_strlike SRC ${H}/base/strlike.cpp LIBS Analyzer IR Utils Shared Logger OSDependent)
verif_harness(h_encoder SRC ${H}/base/encoder.cpp LIBS DataMgr IR Shared Utils Logger OSDependent)
verif_harness(h_datetime SRC ${H}/base/datetime.cpp ${H}/base/dateadd_wrap.cpp LIBS IR Shared Utils Logger OSDependent)
set(QELIBS QueryEngine QueryBuilder ConfigBuilder ResultSetRegistry ${llvm_libs})
verif_harness(h_scalar SRC ${H}/qe/scalar.cpp LIBS ${QELIBS})
verif_harness(h_agg SRC ${H}/qe/agg.cpp LIBS ${QELIBS})
verif_harness(h_util SRC ${H}/base/util.cpp LIBS Shared Utils IR Logger OSDependent)
verif_harness(h_buffer SRC ${H}/base/buffer.cpp LIBS DataMgr IR Shared Utils Logger OSDependent)
verif_harness(h_ir SRC ${H}/base/ir.cpp LIBS IR Shared Utils Logger OSDependent)
verif_harness(h_rs SRC ${H}/base/rs.cpp LIBS ResultSet DataMgr StringDictionary IR Shared Utils Logger OSDependent)
verif_harness(h_qb SRC ${H}/base/qb.cpp LIBS QueryOptimizer QueryBuilder Analyzer IR SchemaMgr DataMgr StringDictionary Shared Utils Logger OSDependent)
verif_harness(h_meta SRC ${H}/base/meta.cpp LIBS Calcite ConfigBuilder CostModel SchemaMgr SqliteConnector ResultSetRegistry IR Shared Utils Logger OSDependent)
verif_harness(h_node SRC ${H}/base/node.cpp LIBS SchemaMgr IR Shared Utils Logger OSDependent)
verif_harness(h_pipe SRC ${H}/qe/pipe.cpp LIBS ${QELIBS})
verif_harness(h_analyze SRC ${H}/base/analyze.cpp LIBS Analyzer StringDictionary IR Shared Utils Logger OSDependent)
verif_harness(h_chunk SRC ${H}/base/chunk.cpp LIBS DataMgr SchemaMgr IR Shared Utils Logger OSDependent)
