"""C15: Borealis bfiq converts to a faithful SuperDARN iqdat file."""
import convspace

PID = 'C15'
LEVEL = 'exploration'
TECHNIQUE = ('model checking: exhaustive enumeration of version x structure x records/sequences/beams/antenna arrays/samples, scaling '
             'factors, stations, times, tags and boundary values through the real converter; the output '
             'bytes are decoded by an independent DMAP codec and compared with an independent conversion model')
RULE = ('every combination is converted once from a file written by the reference HDF5 writer; every field of every output '
        'record is checked, then the SuperDARN reader and the records exposed by the converter; every case is non-trivial')
ASSUMPTIONS = ['truncation to integers is the documented conversion of non-integral range times; times may be off by 1 us',
               'samples are placed half way between integers, so truncation is unambiguous in single precision',
               'ties (.5) of rounded fields and values outside 16 bits (other than status words) are not explored']


def cases(tier):
    return convspace.cases('bfiq', tier)


def run(case, ctx):
    convspace.run(case, ctx)
