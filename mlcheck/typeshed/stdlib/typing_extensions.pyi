from typing import *
