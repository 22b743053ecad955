"""What decides each property: models (design), generators, drivers, trace specifications."""
Q, T = 'quick', 'thorough'
PROPS = {}

PROPS['C01'] = dict(
    models={Q: [('MCDistribute', 'MCDistribute.cfg', {}), ('MCRanks', 'MCRanks.cfg', {})]},
    stages=[dict(driver='ranks', conform=[('TraceRanks', 'TraceRanks.cfg')]),
            dict(name='distribute', driver='jobs', env={'JOBS_KIND': 'distribute'},
                 gen={Q: ('GenJobs', 'GenJobs.cfg', {})}, conform=[('TraceJobs', 'TraceJobs.cfg')], stateful=True),
            dict(name='defers', driver='jobs', env={'JOBS_KIND': 'defers'},
                 gen={Q: ('GenJobs', 'GenFaults.cfg', {})}, conform=[('TraceJobs', 'TraceJobs.cfg')], stateful=True)])

JT = [('TraceJobs', 'TraceJobs.cfg')]
PROPS['C02'] = dict(
    models={Q: [('ReconPool', 'MCReconPool.cfg', {})]},
    stages=[dict(name='recon', driver='jobs', env={'JOBS_KIND': 'recon'},
                 gen={Q: ('GenJobs', 'GenJobs.cfg', {})}, conform=JT, stateful=True)])
PROPS['C03'] = dict(
    models={Q: [('MCDistribute', 'MCDistribute.cfg', {}), ('ReconPool', 'MCReconPool.cfg', {})]},
    stages=[dict(name='faults', driver='jobs', env={'JOBS_KIND': 'faults'},
                 gen={Q: ('GenJobs', 'GenFaults.cfg', {})}, conform=JT, stateful=True),
            dict(name='reconfaults', driver='jobs', env={'JOBS_KIND': 'reconfaults'},
                 gen={Q: ('GenJobs', 'GenFaults.cfg', {})}, conform=JT, stateful=True)])
PROPS['C13'] = dict(
    models={Q: [('MCRank', 'MCRank.cfg', {})]},
    stages=[dict(driver='rank', conform=[('TraceRank', 'TraceRank.cfg')])])
PROPS['C12'] = dict(
    models={Q: [('MCMorph', 'MCMorph.cfg', {})]},
    stages=[dict(driver='morph', conform=[('TraceMorph', 'TraceMorph.cfg')])])
PROPS['C11'] = dict(
    models={Q: [('MCNormalize', 'MCNormalize.cfg', {})]},
    stages=[dict(driver='normalize', conform=[('TraceNormalize', 'TraceNormalize.cfg')])])
PROPS['C14'] = dict(
    models={Q: [('MCPointwise', 'MCPointwise.cfg', {})]},
    stages=[dict(driver='pointwise', conform=[('TracePointwise', 'TracePointwise.cfg')])])


def contract(mode, groups, per):
    return dict(name=mode + groups, driver='contract', env={'CMODE': mode, 'CGROUPS': groups, 'CPER': str(per)},
                gen={Q: ('GenContract', 'GenContract.cfg', {})}, conform=[('TraceContract', 'TraceContract.cfg')])


PROPS['C01']['stages'].append(contract('alone', 'rest', 10))
PROPS['C02']['stages'].append(contract('alone', 'proj', 12))
PROPS['C05'] = dict(models={Q: [('Buffers', 'MCBuffers.cfg', {})]}, stages=[contract('keep', '', 30)])
PROPS['C06'] = dict(models={Q: [('Buffers', 'MCBuffers.cfg', {})]}, stages=[contract('layout', '', 54)])


def reconstruct(kind, per):
    return dict(name=kind, driver='recon', env={'RKIND': kind, 'RPER': str(per)},
                gen={Q: ('GenRecon', 'GenRecon.cfg', {})}, conform=[('TraceRecon', 'TraceRecon.cfg')])


IT = {Q: [('MCIterative', 'MCIterative.cfg', {})], T: [('MCIterative', 'MCIterativeT.cfg', {'timeout': 3000})]}
PROPS['C09'] = dict(models=IT, stages=[reconstruct('project', 200)])
PROPS['C10'] = dict(models=IT, stages=[reconstruct('recon', 70)])
PROPS['C24'] = dict(models=IT, stages=[reconstruct('vector', 60)])
PROPS['C17'] = dict(models={Q: [('MCStripes3D', 'MCStripes3D.cfg', {})],
                             T: [('MCStripes3D', 'MCStripes3DT.cfg', {}), ('MCStripes3D', 'MCStripes3DU.cfg', {})]},
                     stages=[dict(driver='stripes3d', conform=[('TraceStripes3D', 'TraceStripes3D.cfg')])])
PROPS['C15'] = dict(models={Q: [('MCStripes', 'MCStripes.cfg', {})], T: [('MCStripes', 'MCStripesT.cfg', {})]},
                     stages=[dict(driver='stripes', conform=[('TraceStripes', 'TraceStripes.cfg')]),
                             dict(name='stripes-mkl', driver='stripes', env=dict(VT_MKL='1', VT_FEW='.2', SOPS='fw,filtering,fitting'), conform=[('TraceStripes', 'TraceStripes.cfg')])])
PROPS['C16'] = dict(models={Q: [('MCInpaint', 'MCInpaint.cfg', {})], T: [('MCInpaint', 'MCInpaintT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='inpaint', conform=[('TraceInpaint', 'TraceInpaint.cfg')])])
PROPS['C19'] = dict(models={Q: [('MCPhase', 'MCPhase.cfg', {})], T: [('MCPhase', 'MCPhaseT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='phase', conform=[('TracePhase', 'TracePhase.cfg')]),
                             dict(name='phase-mkl', driver='phase', env=dict(VT_MKL='1'), conform=[('TracePhase', 'TracePhase.cfg')])])
PROPS['C20'] = dict(models={Q: [('MCAlign', 'MCAlign.cfg', {})], T: [('MCAlign', 'MCAlignT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='align', conform=[('TraceAlign', 'TraceAlign.cfg')])])
PROPS['C18'] = dict(models={Q: [('MCRotation', 'MCRotation.cfg', {})], T: [('MCRotation', 'MCRotationT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='rotation', conform=[('TraceRotation', 'TraceRotation.cfg')])])
PROPS['C21'] = dict(models={Q: [('MCGridrec', 'MCGridrec.cfg', {})], T: [('MCGridrec', 'MCGridrecT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='gridrec', conform=[('TraceGridrec', 'TraceGridrec.cfg')])])
PROPS['C07'] = dict(models={Q: [('MCToolbox', 'MCToolbox.cfg', {})], T: [('MCToolbox', 'MCToolboxT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='toolbox', gen={Q: ('GenToolbox', 'GenToolbox.cfg', {})},
                                  conform=[('TraceToolbox', 'TraceToolbox.cfg')])])
PROPS['C08'] = dict(models={Q: [('MCRequests', 'MCRequests.cfg', {})], T: [('MCRequests', 'MCRequestsT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='requests', gen={Q: ('GenRequests', 'GenRequests.cfg', {}), T: ('GenRequests', 'GenRequestsT.cfg', {'timeout': 3000})},
                                  conform=[('TraceRequests', 'TraceRequests.cfg')])])
PROPS['C22'] = dict(models={Q: [('MCRings', 'MCRings.cfg', {})], T: [('MCRings', 'MCRingsT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='rings', conform=[('TraceRings', 'TraceRings.cfg')])])
PROPS['C23'] = dict(models={Q: [('MCSimulate', 'MCSimulate.cfg', {})], T: [('MCSimulate', 'MCSimulateT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='simulate', conform=[('TraceSimulate', 'TraceSimulate.cfg')])])
PROPS['C25'] = dict(models={Q: [('MCEnhance', 'MCEnhance.cfg', {})], T: [('MCEnhance', 'MCEnhanceT.cfg', {'timeout': 3000})]},
                     stages=[dict(driver='enhance', conform=[('TraceEnhance', 'TraceEnhance.cfg')]),
                             dict(name='enhance-mkl', driver='enhance', env=dict(VT_MKL='1'), conform=[('TraceEnhance', 'TraceEnhance.cfg')])])
PROPS['C04'] = dict(models={Q: [('MCSession', 'MCSession.cfg', {}), ('History', 'MCHistory.cfg', {}), ('Memo', 'Memo.cfg', {})],
                            T: [('MCSession', 'MCSessionT.cfg', {'timeout': 3000}), ('History', 'MCHistoryT.cfg', {}), ('Memo', 'MemoT.cfg', {})]},
                     stages=[dict(name='schedules', driver='session', gen={Q: ('GenSession', 'GenSession.cfg', {})},
                                  conform=[('TraceSession', 'TraceSession.cfg')]),
                             dict(name='histories', driver='history', gen={Q: ('GenHistory', 'GenHistory.cfg', {})},
                                  conform=[('TraceHistory', 'TraceHistory.cfg')])])
