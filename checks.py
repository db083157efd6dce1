"""Which specification, driver and models decide each property."""
MC = 'model_checking'
ALGEBRA = dict(models=['MC_Algebra'], thorough_models=[('MC_Algebra', 'MC_AlgebraWide')])
STEPS = dict(models=['MC_ALS'], thorough_models=[('MC_ALS', 'MC_ALSWide')])
CHECKS = {
    'C01': dict(conf='Conf_Algebra', driver='d_algebra', level=MC, **ALGEBRA),
    'C02': dict(conf='Conf_Model', driver='d_model', level=MC),
    'C03': dict(conf='Conf_Algebra', driver='d_algebra', level=MC, **ALGEBRA),
    'C04': dict(conf='Conf_Algebra', driver='d_algebra', level=MC, **ALGEBRA),
    'C05': dict(conf='Conf_Model', driver='d_model', level=MC),
    'C06': dict(conf='Conf_Store', driver='d_store', level=MC, models=['MC_Store'], behaviours=('Store', 'Beh_Store', 14), num=(60, 1500)),
    'C07': dict(conf='Conf_ALS', driver='d_als', level=MC, **STEPS),
    'C08': dict(conf='Conf_ALS', driver='d_als', level=MC, **STEPS),
    'C09': dict(conf='Conf_ALS', driver='d_als', level=MC, **STEPS),
    'C10': dict(conf='Conf_ALS', driver='d_als', level=MC, **STEPS),
    'C11': dict(conf='Conf_Measures', driver='d_measures', level=MC),
    'C26': dict(conf='Conf_Measures', driver='d_measures', level=MC),
    'C27': dict(conf='Conf_Helpers', driver='d_helpers', level=MC),
    'C17': dict(conf='Conf_Init', driver='d_init', level=MC),
    'C18': dict(conf='Conf_Metrics', driver='d_metrics', level=MC, **ALGEBRA),
    'C19': dict(conf='Conf_Metrics', driver='d_metrics', level=MC),
    'C20': dict(conf='Conf_Metrics', driver='d_metrics', level=MC),
    'C21': dict(conf='Conf_Log', driver='d_log', level=MC, models=['MC_LogFile'], behaviours=('LogFile', 'Beh_LogFile', 30), num=(80, 1500)),
    'C22': dict(conf='Conf_Log', driver='d_log', level=MC, models=['MC_ExpRun'], behaviours=('ExpRun', 'Beh_ExpRun', 14), num=(80, 1500)),
    'C23': dict(conf='Conf_Model', driver='d_model', level=MC),
    'C24': dict(conf='Conf_Heap', driver='d_heap', level=MC, models=['MC_Heap'], behaviours=('MC_Heap', 'Beh_Heap', 26), num=(30, 600)),
}
NOTES = {}
SESSION = dict(conf='Conf_Session', driver='d_session', level=MC, models=[('MC_Session', 'MC_Session')],
               thorough_models=[('MC_Session', 'MC_Session2'), ('MC_Session', 'MC_SessionEnds')],
               behaviours=('Session', 'Beh_Session', 200), num=(400, 6000))
for _p in ('C12', 'C13', 'C14', 'C15', 'C16', 'C25', 'C28'):
    CHECKS[_p] = dict(SESSION, prefix=_p)
