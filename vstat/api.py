"""Public functions and methods of the pinned tree (a frozen table).

In the default policy calls to these stay symbolic; everything else (private
helpers, functions added later) is expanded in place, so extracting or merging
a helper does not change what a rule sees.
"""
API = frozenset("""
AutonomousCodePortal.__init__
AutonomousCodePortal.describe
AutonomousCodePortal.get_best_portal_to_use
AutonomousCodePortal.get_entered_portals
AutonomousCodePortal.get_most_recently_entered_portal
AutonomousCodePortal.get_noncurrent_portals
AutonomousCodePortal.get_params
AutonomousFn.__getstate__
AutonomousFn.__init__
AutonomousFn.__setstate__
AutonomousFn.decorator
AutonomousFn.dependencies
AutonomousFn.execute
AutonomousFn.fn_type
AutonomousFn.portal
AutonomousFn.update
BasicPortal.__enter__
BasicPortal.__exit__
BasicPortal.__exit_all__
BasicPortal.__getstate__
BasicPortal.__init__
BasicPortal.__setstate__
BasicPortal.default_base_dir
BasicPortal.describe
BasicPortal.get_best_portal_to_use
BasicPortal.get_entered_portals
BasicPortal.get_most_recently_added_portal
BasicPortal.get_most_recently_entered_portal
BasicPortal.get_noncurrent_portals
BasicPortal.get_params
DataPortal.__init__
DataPortal.describe
DataPortal.get_best_portal_to_use
DataPortal.get_entered_portals
DataPortal.get_most_recently_entered_portal
DataPortal.get_noncurrent_portals
DataPortal.get_params
DataPortal.p_consistency_checks
DefaultLocalPortal.__init__
DefaultLocalPortal.__new__
FirstEntryDict.__contains__
FirstEntryDict.__getattr__
FirstEntryDict.__getitem__
FirstEntryDict.__init__
FirstEntryDict.__len__
FirstEntryDict.__setitem__
FirstEntryDict.timestamp
HashAddr.__eq__
HashAddr.__hash__
HashAddr.__init__
HashAddr.__ne__
HashAddr.from_strings
HashAddr.get
HashAddr.hash_signature
HashAddr.prefix
HashAddr.ready
LoggingPortal.__exit__
LoggingPortal.__init__
LoggingPortal.add_execution_environment_summary
LoggingPortal.describe
LoggingPortal.get_best_portal_to_use
LoggingPortal.get_entered_portals
LoggingPortal.get_most_recently_entered_portal
LoggingPortal.get_noncurrent_portals
LoggingPortal.log_event
LoggingPortal.make_unique_name
NamesUsageAnalyzer.__init__
NamesUsageAnalyzer.visit_Attribute
NamesUsageAnalyzer.visit_ClassDef
NamesUsageAnalyzer.visit_DictComp
NamesUsageAnalyzer.visit_For
NamesUsageAnalyzer.visit_FunctionDef
NamesUsageAnalyzer.visit_GeneratorExp
NamesUsageAnalyzer.visit_Global
NamesUsageAnalyzer.visit_Import
NamesUsageAnalyzer.visit_ImportFrom
NamesUsageAnalyzer.visit_Lambda
NamesUsageAnalyzer.visit_ListComp
NamesUsageAnalyzer.visit_MatchAs
NamesUsageAnalyzer.visit_MatchMapping
NamesUsageAnalyzer.visit_MatchStar
NamesUsageAnalyzer.visit_Name
NamesUsageAnalyzer.visit_Nonlocal
NamesUsageAnalyzer.visit_SetComp
NamesUsageAnalyzer.visit_Try
NamesUsageAnalyzer.visit_Yield
NamesUsageAnalyzer.visit_YieldFrom
NamesUsageAnalyzer.visit_comprehension
NamesUsedInFunction.__init__
NotAllowedError.__init__
OrdinaryCodePortal.__init__
OrdinaryCodePortal.get_best_portal_to_use
OrdinaryCodePortal.get_entered_portals
OrdinaryCodePortal.get_most_recently_entered_portal
OrdinaryCodePortal.get_noncurrent_portals
OrdinaryFn.__call__
OrdinaryFn.__getstate__
OrdinaryFn.__init__
OrdinaryFn.__setstate__
OrdinaryFn.decorator
OrdinaryFn.execute
OrdinaryFn.portal
OrdinaryFn.update
OutputCapturer._CaptureHandler.__init__
OutputCapturer._CaptureHandler.emit
OutputCapturer._TeeStream.__init__
OutputCapturer._TeeStream.flush
OutputCapturer._TeeStream.write
OutputCapturer.__enter__
OutputCapturer.__exit__
OutputCapturer.__init__
OutputCapturer.get_output
OutputSuppressor.__enter__
OutputSuppressor.__exit__
OutputSuppressor.__init__
OverlappingMultiDict.__delitem__
OverlappingMultiDict.__getitem__
OverlappingMultiDict.__getstate__
OverlappingMultiDict.__init__
OverlappingMultiDict.__setitem__
OverlappingMultiDict.__setstate__
PortalAwareClass.__copy__
PortalAwareClass.__getstate__
PortalAwareClass.__init__
PortalAwareClass.__setstate__
PortalAwareClass.capture_portal
PortalAwareClass.portal
PureCodePortal.__init__
PureCodePortal.describe
PureCodePortal.get_best_portal_to_use
PureCodePortal.get_entered_portals
PureCodePortal.get_most_recently_entered_portal
PureCodePortal.get_noncurrent_portals
PureFn.__getstate__
PureFn.__init__
PureFn.__setstate__
PureFn.augmented_fn_source_code
PureFn.can_be_executed
PureFn.decorator
PureFn.execute
PureFn.fn_type
PureFn.get_address
PureFn.portal
PureFn.run
PureFn.run_grid
PureFn.run_list
PureFn.swarm
PureFn.swarm_grid
PureFn.swarm_list
PureFn.update
PureFnCallSignature.__getstate__
PureFnCallSignature.__init__
PureFnCallSignature.__setstate__
PureFnCallSignature.portal
PureFnExecutionFrame.__enter__
PureFnExecutionFrame.__exit__
PureFnExecutionFrame.__init__
PureFnExecutionFrame.portal
PureFnExecutionFrame.register_event
PureFnExecutionFrame.register_exception
PureFnExecutionFrame.register_execution_attempt
PureFnExecutionFrame.register_execution_result
PureFnExecutionRecord.__init__
PureFnExecutionRecord.attempt_context
PureFnExecutionRecord.crashes
PureFnExecutionRecord.events
PureFnExecutionRecord.kwargs
PureFnExecutionRecord.output
PureFnExecutionRecord.portal
PureFnExecutionRecord.result
PureFnExecutionResultAddr.__getstate__
PureFnExecutionResultAddr.__init__
PureFnExecutionResultAddr.__setstate__
PureFnExecutionResultAddr.arguments
PureFnExecutionResultAddr.can_be_executed
PureFnExecutionResultAddr.crashes
PureFnExecutionResultAddr.drop_execution_request
PureFnExecutionResultAddr.events
PureFnExecutionResultAddr.execute
PureFnExecutionResultAddr.execution_attempts
PureFnExecutionResultAddr.execution_outputs
PureFnExecutionResultAddr.execution_records
PureFnExecutionResultAddr.execution_requested
PureFnExecutionResultAddr.execution_results
PureFnExecutionResultAddr.fn
PureFnExecutionResultAddr.fn_name
PureFnExecutionResultAddr.fn_source_code
PureFnExecutionResultAddr.function
PureFnExecutionResultAddr.get
PureFnExecutionResultAddr.get_ValueAddr
PureFnExecutionResultAddr.island_name
PureFnExecutionResultAddr.kwargs
PureFnExecutionResultAddr.last_crash
PureFnExecutionResultAddr.last_event
PureFnExecutionResultAddr.last_execution_attempt
PureFnExecutionResultAddr.last_execution_output
PureFnExecutionResultAddr.needs_execution
PureFnExecutionResultAddr.portal
PureFnExecutionResultAddr.ready
PureFnExecutionResultAddr.request_execution
SafeCodePortal.__init__
SafeCodePortal.get_best_portal_to_use
SafeCodePortal.get_entered_portals
SafeCodePortal.get_most_recently_entered_portal
SafeCodePortal.get_noncurrent_portals
SafeFn.__init__
SafeFn.decorator
SafeFn.portal
SortedKwArgs.__init__
SortedKwArgs.pack
SortedKwArgs.unpack
SwarmingPortal.__init__
SwarmingPortal.describe
SwarmingPortal.get_best_portal_to_use
SwarmingPortal.get_entered_portals
SwarmingPortal.get_most_recently_entered_portal
SwarmingPortal.get_noncurrent_portals
SwarmingPortal.get_params
SwarmingPortal.parent_runtime_is_live
ValueAddr.__copy__
ValueAddr.__getstate__
ValueAddr.__init__
ValueAddr.__setstate__
ValueAddr.get
ValueAddr.get_ValueAddr
ValueAddr.get_from_current_portal
ValueAddr.get_from_noncurrent_portals
ValueAddr.get_typed
ValueAddr.portal
ValueAddr.ready
_PortalTester.__enter__
_PortalTester.__exit__
_PortalTester.__init__
_VariableAnnotationsRemover.visit_AnnAssign
_VariableAnnotationsRemover.visit_ClassDef
__get_normalized_function_source__
accepts_unlimited_positional_args
analyze_names_in_function
assert_ordinarity
autonomous.__call__
autonomous.__init__
autonomous.portal
build_execution_environment_summary
connect_to_default_portal
connect_to_local_portal
convert_astkeywords_to_dict
convert_base16_to_base32
convert_base_32_to_int
convert_dict_to_astkeywords
convert_int_to_base32
current_date_gmt_string
describe
explore_call_graph_deep
explore_call_graph_shallow
get_base16_hash_signature
get_base32_hash_signature
get_function_name_from_source
get_hash_signature
get_long_infoname
get_node_signature
get_normalized_function_source
get_random_signature
get_referenced_names
initialize
install_package
is_autonomous
is_executed_in_notebook
is_loosely_autonomous
is_pure
is_strictly_autonomous
log_event
ordinary.__call__
ordinary.__init__
ordinary.portal
process_augmented_func_src
pth_excepthandler
pth_excepthook
pure.__call__
pure.__init__
pure.portal
register_systemwide_uncaught_exception_handlers
retrieve_objs_available_inside_autonomous_functions
safe.__call__
safe.__init__
safe.portal
strictly_autonomous.__init__
uninstall_package
unregister_systemwide_uncaught_exception_handlers
""".split())
