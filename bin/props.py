"""Which violations count for which property, and what makes a run non-trivial."""
ANY = ['crash.', 'hang']
DATA = ['get.', 'scan.', 'fscan.', 'put.', 'rec.', 'var.', 'flush.', 'dur.']

TIERS = {
    'quick': {'phases': [('plain', 24), ('san', 10)], 'determinism': 12},
    'thorough': {'phases': [('plain', 420), ('san', 180)], 'determinism': 100},
}

PROPS = {
    'C01': dict(tags=ANY + ['get.', 'rec.'], nontrivial='records were inserted, pages were written to storage and keys were looked up'),
    'C02': dict(tags=ANY + ['put.', 'rec.', 'get.', 'scan.', 'flush.'], nontrivial='records were inserted, pages were written and at least one insert of a key that is not larger was refused'),
    'C03': dict(tags=ANY + ['scan.', 'fscan.'], nontrivial='records were inserted, pages were written and an iterator was stepped or a scan made'),
    'C04': dict(tags=ANY + ['scan.', 'fscan.', 'get.'], nontrivial='a scan with a value bound ran in a run that wrote bitmap index pages'),
    'C05': dict(tags=ANY + ['get.', 'scan.', 'fscan.', 'put.', 'rec.', 'var.', 'flush.'], nontrivial='the data file wrapped around and lookups or scans followed'),
    'C06': dict(tags=ANY + DATA, nontrivial='pages were written, the process crashed and a recovery ran'),
    'C07': dict(tags=ANY + DATA, nontrivial='record-level consistency was on, records were inserted and the process crashed'),
    'C08': dict(tags=ANY + ['var.', 'get.', 'scan.'], nontrivial='variable-length data was stored and read back through a stream'),
    'C09': dict(tags=ANY + DATA, nontrivial='variable-length data was stored and the database was reopened or crashed'),
    'C10': dict(tags=ANY + DATA + ['q.', 'mem.', 'dev.', 'err.'], nontrivial='records were inserted and at least one injected fault fired',
                assumptions=['with record-level consistency a write reported as failed leaves no page behind']),
    'C11': dict(tags=ANY + ['put.', 'flush.', 'get.', 'scan.', 'rec.', 'var.'], nontrivial='records and pages were written and lookups or scans ran'),
    'C12': dict(tags=ANY + ['dev.', 'get.', 'scan.', 'rec.', 'var.'], nontrivial='the data file wrapped around, or pages were written and the process crashed'),
    'C13': dict(tags=ANY + ['q.', 'mem.'], nontrivial='a query pipeline delivered at least one row'),
    'C14': dict(tags=ANY + DATA + ['q.', 'dev.', 'mem.'], nontrivial='two or more databases were open and pages were written'),
    'C15': dict(tags=ANY + ['mem.', 'init.', 'q.leak', 'dev.misuse', 'dev.range'], nontrivial='pages were written and faults fired, crashes happened or data was read'),
    'C16': dict(tags=ANY + ['lock.'], nontrivial='results of both builds were compared in lock-step, or a database was reopened by a build'),
    'C17': dict(tags=ANY + ['drv.', 'mem.'], nontrivial='pages were written or read through the desktop driver over the simulated stdio layer'),
    'C20': dict(tags=ANY + ['cfg.', 'init.', 'mem.'] + DATA, nontrivial='records were inserted and at least one configuration outside the limits was tried'),
    'C21': dict(tags=ANY + DATA + ['drv.', 'mem.', 'dev.', 'err.'], nontrivial='pages were written or read through the SD-card or dataflash driver on the simulated card or chip',
                assumptions=['sectors are written atomically and in order, a failed sector read leaves the buffer alone, a chip page is programmed as a whole', 'no card error and no power loss while a file is created or truncated: FAT itself does not survive that']),
    'C22': dict(tags=ANY + ['fmt.'], nontrivial='at least one page was passed to the storage and its content compared with the model'),
    'C23': dict(tags=ANY + ['cost.'], nontrivial='pages were written and the pages read by at least one lookup or scan were compared with the bounds'),
    'C25': dict(tags=ANY + ['heap.', 'mem.', 'init.leak', 'q.leak'], nontrivial='pages were written, data was read and the heap and stack use of the calls was compared with the bounds'),
    'C24': dict(tags=ANY + ['stat.', 'get.', 'scan.'], nontrivial='pages were written and the counters were compared with the storage'),
}
