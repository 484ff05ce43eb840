from __future__ import absolute_import, division, print_function

import logging

from .gsversion import *
from .gslog import gsapiLogger

from . import gsutil
from . import gsdefs
from . import gspattern
from . import gsdataset
from . import gsio
from . import gsextractors
from . import gsstyles
from . import gsdescriptors
from . import gstransformers
from . import bassmine
from . import midiio
