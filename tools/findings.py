"""Writes known_findings.json: repaired defects (from the fix commits of /repo) and recorded ones."""

import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
# property -> list of (start of the commit subject after "fix: ", what failed)
FIXED = [
    ('C03', 'SampleSplitter', 'concurrent readers of a SampleSplitter lost or doubled blocks, kept references to reused buffers, or waited forever when the source failed'),
    ('C04', 'SampleSplitter', 'the smallest buffer of all objects decided about overflow, blocks were dropped without the announced reaction, and the pass after an overflow was incomplete'),
    ('C12', 'point sources do not read outside', 'point sources read outside of the signal array (uninitialised memory) when the signal is shorter than the propagation'),
    ('C02', 'TimeReverse keeps copies', 'TimeReverse delivered wrong data from sources that reuse their buffers'),
    ('C02', 'Mixer and SourceMixer', 'Mixer and SourceMixer added up in the blocks of their sources, which changed the data of TimeSamples and of other readers'),
    ('C01', 'TimeConvolve convolves', 'TimeConvolve: errors and wrong samples for block sizes or signals shorter than the kernel and for single kernels'),
    ('C02', 'line sources leave', 'line sources changed the seed of their signal in every pass: passes differ, the user object is modified, output depends on the process'),
    ('C12', 'line sources leave', 'incoherent line sources were seeded by an address-dependent hash'),
    ('C01', 'dipole and line sources', 'an empty last block was delivered if the number of samples is a multiple of the block size'),
    ('C15', 'time domain beamformers apply', 'weights were applied to the overlapping samples of a block again'),
    ('C01', 'time domain beamformers end', 'time domain beamformers failed or delivered blocks of negative or wrong length at the end of the signal'),
    ('C18', 'CrossPowerSpectra', 'calc_mode upper/lower failed'),
    ('C01', 'filter banks', 'filter banks failed for a shorter last block'),
    ('C18', 'RFFT announces', 'num_samples of RFFT did not agree with the blocks delivered with overlap'),
    ('C01', 'SpatialInterpolatorRotation', 'SpatialInterpolatorRotation used the angles of the wrong samples (blocks) or failed'),
    ('C09', 'WriteH5 closes', 'the file stayed open and could not be read if writing was interrupted'),
    ('C01', 'PointSource with zero prepadding', 'a late start delivered a wrong number of samples'),
    ('C12', 'FiltFiltOctave', 'uninitialised memory was filtered when the source ends early'),
    ('C02', 'TimeReverse can read', 'TimeReverse failed with a SampleSplitter as source'),
    ('C05', 'Cache accepts', 'a source without data led to an error at the end of the pass'),
    ('C08', 'HDF5Cache stays usable', 'semaphore never released after an error (next access waits forever), files closed while in use, mode change ignored'),
    ('C05', 'no data of an interrupted run', 'removed nodes left data in freed space that appeared as complete data after a crash'),
    ('C06', 'beamformers, spectra', 'interrupted caching left nodes that made every later run fail or deliver zeros'),
    ('C07', 'digests cover complete', 'digest used the abbreviated text of arrays (large or nearly equal arrays collide), concatenated values without separation, and 1 and 1.0 differ'),
    ('C07', 'invalid channels of Calib', 'Calib with other invalid channels had the same digest'),
    ('C07', 'GeneralFlowEnvironment', 'sound propagation of the old flow field was used after edits'),
    ('C17', 'SteeringVector.r0', 'r0 with ref=0.0 raised TypeError'),
    ('C07', 'SteeringVector.inv_digest', 'inv_digest depended on steer_type: equal PSFs were not identified'),
    ('C07', 'cached point spread', 'PSF for 1000.001 Hz was served from the node of 1000.004 Hz'),
    ('C07', 'PointSpreadFunction does not replace', 'grid_indices was filled at the first read and used for another grid later'),
    ('C07', 'psf_precision', 'DamasPlus with other psf_precision had the same digest'),
    ('C07', 'BeamformerGridlessOrth notices', 'in-place edits not noticed; options dictionary of the user and steer.env.roi were changed by reading the result'),
    ('C07', 'BeamformerGridlessOrth result size', 'components of different frequencies overlapped when eva_list was set'),
    ('C07', 'number of samples, channels', 'num_samples, num_channels and sample_freq kept the value of a source that had been exchanged'),
    ('C07', 'MicGeom.pos', 'pos kept old channels after invalid_channels.append'),
    ('C07', 'GenericSignalGenerator.num_samples', 'kept the value of the old source'),
    ('C07', 'digest of TimeSamples', 'recordings with equal first sample had equal digests'),
    ('C07', 'digest and channels of Masked', 'sampling frequency, number of samples and in-place edits were missing'),
    ('C07', 'digest of Spherical', 'direction was missing'),
    ('C07', 'digest of MovingPointSource includes', 'up was missing'),
    ('C07', 'digest of MovingPointSourceDipole', 'rvec, trajectory, conv_amp, prepadding were missing'),
    ('C07', 'digests of LineSource', 'length, num_sources, trajectory etc. were missing'),
    ('C07', 'cross spectral matrix', 'precision depended on caching'),
    ('C07', 'PowerSpectraImport', 'digest was computed from the previous matrix, and matrices with equal sums collided'),
    ('C01', 'trajectory beamformers deliver', 'the last samples were delivered for some block sizes only'),
    ('C07', 'MaskedTimeOut notices', 'in-place edits of invalid_channels and exchanged sources were not noticed'),
    ('C07', 'SpatialInterpolator follows', 'mesh of the old geometry was used, weighting was missing in the digest'),
    ('C07', 'filters of OctaveFilterBank', 'stale band filters'),
    ('C07', 'WriteWAV notices', 'in-place edits of channels'),
    ('C07', 'TimeConvolve does not reshape', 'reading the result changed the kernel and the digest'),
    ('C05', 'several concurrent passes', 'two passes at the same time over a Cache that is not filled: node removed under the writer, error'),
    ('C08', 'several threads that use one entry', 'threads that used one entry of a cache file at the same time removed each other nodes or failed'),
    ('C09', 'metadata of recordings written with PyTables and read', 'attributes of the HDF5 group appeared as metadata when read with h5py'),
    ('C11', 'running of SoundDeviceSamplesGenerator', 'running stayed True after a recording was abandoned or failed'),
    ('C10', 'WriteWAV with integer signals', 'division by zero for silent or empty signals, overflow for integer signals'),
    ('C09', 'automatic names of recordings', 'two recordings started within the clock resolution overwrote each other'),
    ('C09', 'text metadata of recordings with other', 'non-ASCII metadata raised an error and left an incomplete file'),
    ('C14', 'last frequency requested as result[-1]', 'result[-1] returned zeros that were never calculated'),
    ('C14', 'results kept by the user follow', 'a kept result mixed values of old and new settings and stored them in the cache under the old digest'),
    ('C14', 'integrate before any result', 'integrate on a fresh object returned an empty spectrum'),
    ('C14', 'integrate of beamformers with adaptive grid', 'integrate always raised an exception'),
    ('C14', 'maps handed out by result and synthetic', 'changing a returned map in place changed the stored result'),
    ('C14', 'synthetic outside of the resolved', 'a request outside of the resolved frequencies evaluated the whole first line, with its errors'),
    ('C14', 'BeamformerGIB with frequencies that have no positive', 'UnboundLocalError for frequency lines without positive eigenvalue'),
    ('C15', 'moving focus beamformers with a trajectory', 'a trajectory that ended inside of the last block raised RuntimeError instead of ending the output'),
    ('C15', 'convective amplification of a source that stands', 'division by zero velocity turned the whole output into NaN'),
    ('C16', 'an object that starts again at a sample splitter', 'after an error in one consumer a restarted consumer got only the rest of the stream'),
    ('C16', 'errors while calculating a digest', 'I/O errors were swallowed and results stored under the digest of an empty string'),
    ('C17', 'number of samples of an empty selection', 'num_samples was negative if start lies behind the end of the recording'),
    ('C18', 'scaling of power spectral densities', 'psd was multiplied by the sampling frequency instead of divided by it'),
    ('C18', 'number of samples of block averages', 'Average.num_samples was a fraction that counted a block which is never delivered'),
    ('C18', 'MaskedTimeOut delivers the rest', 'the last samples were lost if the source ends before its announced length'),
    ('C02', 'Trigger keeps a copy', 'the edge at a block boundary was searched in memory the source had reused'),
    ('C18', 'Trigger warns', 'AttributeError instead of a warning for sources other than TimeSamples'),
    ('C18', 'edge of rectangular triggers', 'a wrong sample index of edges in the first block'),
    ('C18', 'threshold of Trigger', 'block means were averaged with equal weight: triggers depend on the block size'),
    ('C18', 'angle and speed', 'wrong angle if the speed changes or the first trigger is late; rpm wrong by trigger_per_revo'),
    ('C14', 'CLEAN-SC maps of frequencies', 'a silent frequency line turned the maps of all following lines into NaN'),
    ('C07', 'eigenvalue index follows', 'BeamformerEig/Music used the eigenvalue index of the former number of microphones: empty or wrong maps'),
    ('C07', 'cross spectral matrices of benchmark', 'CsmAIAABenchmark kept the matrix of the old file, and files with equal names had equal digests'),
    ('C23', 'moving sources count', 'the start of the data acquisition was counted twice for moving sources'),
    ('C23', 'UncorrelatedNoiseSource keeps', 'depth, ar and ma of the noise signal were ignored'),
]
CSM = dict(
    property='C18', status='known', cls='averaged-over-fraction', where='PowerSpectra',
    what='PowerSpectra.calc_csm: the sum over the complete blocks is divided by num_blocks, which counts the fraction of a '
         'block left at the end, too (1000 samples in blocks of 128: 7 blocks, divided by 7.8125); levels are too low by up '
         'to 3 dB for short signals. Not repaired: the doctest of PowerSpectra.synthetic_ev pins the values.',
    scenario=dict(
        term='csm', n=129, ch=1, seed=1, shape='noise', fs=1000.0, style='fresh', chain=[],
        turns=[dict(num=7, two=False, sched=0, edit=0, new=1, pre=[0, 0],
                    t=dict(bs=16, psbs=128, win='Rectangular', ov='None', scaling='none', prec=False, psd=False, single=False,
                           mode='full', nav=1, avg=False, oct=0, f=0.5))]),
)
SRC = dict(n=20, fs=1000.0, up=4, c=343.0, sig='W', seed=1, rms=1.0, mics=[[0.3, -0.2], [0.1, 0.2], [0.0, 0.1]], loc=[0.0, 0.0, 1.0],
           start_t=0.0, start=0.0, flow=None, prepadding='loop', direction=[1.0, 0.0, 0.0], length=0.5, num_sources=2, strength=[1.0, 0.5, 0.2],
           conv_amp=False, points=[[-0.05, [0.2, 0.1, 1.0]], [0.1, [0.2, 0.1, 1.0]]])
LATE = dict(
    property='C23', status='known', cls='one-sample-late', where='MovingLineSource',
    what='MovingLineSource.result advances the time before the first sample: every sample is received one sample later than from LineSource '
         'and MovingPointSource at the same position. Not repaired: the snapshot tests of the sources pin the values.',
    scenario=dict(s=dict(SRC, cls='MovingLineSource'), ops=[['open', 0, 7]], strict='one-sample-late'),
)
MACH = dict(
    property='C23', status='known', cls='mach-number-of-origin', where='MovingPointSource',
    what='MovingPointSource with conv_amp: the radial Mach number is that of the direction from the origin to the source instead of the '
         'direction from the microphone. Not repaired: the snapshot tests of the sources pin the values.',
    scenario=dict(s=dict(SRC, cls='MovingPointSource', conv_amp=True, points=[[-0.05, [-1.0, 0.1, 0.5]], [0.1, [4.0, 0.1, 0.5]]]),
                  ops=[['open', 0, 7]], strict='mach-number-of-origin'),
)
RECORDED = [CSM, LATE, MACH]  # dicts with property, status 'known', cls, where, what, scenario that shows it


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
    commits = {ln.split(' ', 1)[1]: ln.split(' ', 1)[0] for ln in log if ' fix: ' in ln[:14]}
    out, used = [], set()
    for prop, start, what in FIXED:
        c = [(s, h) for s, h in commits.items() if s.startswith('fix: ' + start)]
        assert len(c) == 1, (start, c)
        used.add(c[0][0])
        out.append(dict(property=prop, status='fixed', what=f'fixed: property={prop} {c[0][1]} {what}'))
    for s in commits:
        if s not in used:
            print('no entry for', s)
    with open(os.path.join(HERE, '..', 'known_findings.json'), 'w') as f:
        f.write('{"findings": [\n ' + ',\n '.join(json.dumps(x) for x in RECORDED + out) + '\n]}\n')


if __name__ == '__main__':
    main()
