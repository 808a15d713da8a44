. /opt/vp/env.sh
cd /verif
